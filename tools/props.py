"""The properties (source of properties.jsonl and MANIFEST.json)."""
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, quant, why, files, mech, note, technique, over=("inputs",), **k):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech,
                      note=note, technique=technique, over=list(over), **k))


REF = "runtime monitoring against an executable reference model (seeded random + hostile workloads on the real compiled code)"
N = "mmcore/geom/nurbs.pyx"

P("C01", "Curve evaluation gives the point its definition prescribes",
  "For every NURBS or B-spline curve and every parameter of its domain (ends and knots included) each way of evaluating it returns the rational combination of its control points given by the Cox-de Boor basis. "
  "Single, batched, homogeneous, pure-python and compiled evaluators agree; the default knot vector is clamped and uniform, a curve built periodic closes, and the basis functions are non-negative and sum to one.",
  "all degrees, control points, positive weights, clamped, open or generated knot vectors and parameters in the domain",
  "The tests evaluate a handful of fixed curves; degree, knot multiplicity, weights and domain position all change the code path.",
  [N, "mmcore/geom/curves/_nurbs.pyx", "mmcore/geom/curves/deboor.pyx", "mmcore/geom/curves/bspline.py", "mmcore/geom/curves/bspline_utils.py", "mmcore/geom/curves/cubic.py"],
  [("span search and basis recursion", N + ":find_span/basis_funs"), ("rational point evaluation", N + ":curve_point"), ("compiled spline evaluators", "mmcore/geom/curves/_nurbs.pyx"), ("default knots", N + ":generate_knots")],
  "Every evaluator is compared with an independent Cox-de Boor model on seeded random curves (degree 1-7, repeated knots, extreme weights) at random, knot and end parameters; finite sampling.", REF)

P("C02", "Surface evaluation gives the point its definition prescribes",
  "Evaluating a NURBS surface at any parameter of its domain returns the tensor-product rational point of its control net, and ruled, bilinear, Coons, cylinder and other constructed surfaces return the point their definition prescribes. "
  "Single, batched and python-level evaluators agree, and constructed surfaces contain the curves or points they were built from.",
  "all degrees, nets, weights, knot vectors, generating curves and parameters in the domain",
  "Only a few fixed surfaces are evaluated by the tests, mostly through intersection results.",
  [N, "mmcore/geom/surfaces/__init__.py", "mmcore/geom/primitives.pyx", "mmcore/geom/parametric.pyx", "mmcore/geom/surfaces/ellipsoid.pyx"],
  [("tensor product evaluation", N + ":surface_point"), ("ruled / bilinear / Coons evaluators", "mmcore/geom/surfaces/__init__.py, mmcore/geom/primitives.pyx")],
  "Compared with an independent tensor-product model or closed forms on seeded random surfaces and parameters; finite sampling.", REF)

P("C03", "Curve derivatives, tangents, normals, curvature and frames match the curve",
  "Every derivative a curve reports is the derivative of the curve it evaluates, for every order and rational or not. Tangent, normal, curvature vector, circle of curvature and frames are those defined by the first two derivatives: unit, mutually orthogonal and right-handed where defined.",
  "all curves and parameters where the derivative exists",
  "Tests check no derivative against the curve; errors only show for particular weights, orders or ends of the domain.",
  [N, "mmcore/geom/parametric.pyx", "mmcore/geom/curves/_nurbs.pyx", "mmcore/geom/curves/curve.py", "mmcore/numeric/numeric.py", "mmcore/numeric/vectors.pyx"],
  [("NURBS derivative algorithms", N + ":curve_derivs_alg1/alg2, rat_curve_derivs"), ("frames", "mmcore/geom/parametric.pyx:ParametricCurve")],
  "Reported derivatives are compared with exact rational derivatives of an independent model; central-difference code within its own order of accuracy.", REF)

P("C04", "Surface derivatives, normals and tangent frames match the surface",
  "Every partial derivative a surface reports is that of the surface it evaluates, in both directions and for all orders, interior and at the ends of the domain. Normals are unit and orthogonal to both partials, and tangent planes are orthonormal frames at the surface point; fundamental forms and curvatures follow from the same derivatives.",
  "all surfaces and regular parameters",
  "Tests only use derivatives indirectly; wrong mixed or end-of-domain derivatives still let the sampled intersections converge.",
  [N, "mmcore/geom/parametric.pyx", "mmcore/geom/surfaces/__init__.py", "mmcore/geom/evaluator/surface_evaluator.pyx", "mmcore/geom/primitives.pyx"],
  [("surface_derivatives / rat_surface_derivs", N), ("finite-difference partials and planes", "mmcore/geom/parametric.pyx:ParametricSurface"), ("evaluator", "mmcore/geom/evaluator/surface_evaluator.pyx")],
  "Exact algorithms to 1e-8 against an independent model; finite-difference ones within the bound of their step.", REF)

P("C05", "Editing a curve's knots, degree, direction or extent keeps its shape",
  "Inserting, multiplying, refining or removing removable knots, elevating the degree, normalising the domain, flipping, splitting, trimming, decomposing and joining leave a NURBS curve geometrically unchanged: the result is the original point set under the stated affine change of parameter, for rational curves too. "
  "Pieces cover exactly the requested parameter range and meet at the cut, and every result has a consistent, non-decreasing knot vector. "
  "An edit that is impossible is refused without corrupting the curve.",
  "all curves, edit parameters and sequences of edits",
  "Tests split and insert on one or two non-rational curves; sequences, repeated knots and weights are not reached.",
  [N, "mmcore/geom/curves/knot.py"],
  [("Boehm insertion, removal, refinement", N + ":knot_insertion/knot_removal/knot_refinement"), ("split/trim/decompose", N + ":split_curve, trim, decompose_curve"), ("degree elevation, joining", "mmcore/geom/curves/knot.py")],
  "Random edit sequences tracked by an affine parameter map against the original definition after every step.", REF, over=("inputs", "histories"))

P("C06", "Editing a surface's knots or extent keeps its shape; isocurves lie on it",
  "Knot insertion in either direction, normalisation, splitting, subdivision and Bezier decomposition leave a NURBS surface geometrically unchanged, piecewise over exactly the requested parameter ranges. Isocurves and boundary curves extracted from it coincide with it at the fixed parameter, rational surfaces included. Impossible edits are refused.",
  "all surfaces, parameters and sequences of edits",
  "Tests cover one isocurve on one surface; rational nets and edit sequences are not reached.",
  [N, "mmcore/numeric/intersection/ssx/boundary_intersection.py"],
  [("insert_knot_u/v, split_surface_u/v, subdivide_surface, decompose_surface", N), ("extract_isocurve", "mmcore/numeric/intersection/ssx/boundary_intersection.py")],
  "Random edit sequences tracked against the original net after every step, and isocurves compared pointwise.", REF, over=("inputs", "histories"))

P("C07", "Copies, pickles and serialised curves restore exactly the same geometry",
  "Copying, deep-copying, pickling or serialising a NURBS object and restoring it gives an equal object with bit-identical data, domain and evaluation, independent of the original in both directions. Objects with equal data are equal with equal hashes and objects that differ in points, weights or knots are not. "
  "Serialised bytes follow one fixed layout; truncated, foreign or non-byte data are refused.",
  "all curves and surfaces, all edit histories before and after, all byte strings",
  "Tests round-trip nothing but a sample curve; aliasing and stale state only appear after later edits.",
  [N], [("serialize/deserialize, __reduce__, copy, __hash__", N + ":NURBSCurve"), ("copy, __hash__", N + ":NURBSSurface")],
  "Bit comparison after every codec, followed by edits on one side and re-reading the other; malformed buffers.", REF, over=("inputs", "histories"))

P("C08", "After any history of edits every query reflects the current data",
  "Along every interleaving of edits (points, weights, knots, insertion, normalisation, flipping, copying) and queries, a NURBS object answers each query (points, derivatives, interval, bounding box, Greville abscissae, data) from its current data. Answers never depend on earlier queries, on arrays the caller later overwrites, or on other live objects.",
  "all histories of edits and queries over live objects",
  "Caches and aliasing show only when the same parameter is asked for again after an edit; no test does that.",
  [N, "mmcore/geom/curves/_nurbs.pyx", "mmcore/geom/curves/bspline.py", "mmcore/geom/surfaces/__init__.py"],
  [("evaluation caches and their invalidation", N + ":_evaluate_cached"), ("knots_update_hook / _update_interval", N)],
  "A shadow model predicts every answer of random histories of up to 30 operations over up to three live objects, with a small pool of parameters to hit the caches.", REF, over=("inputs", "histories"))

P("C09", "Bounding boxes contain what they bound, and box operations are set operations",
  "The bounding box of points, segments, control nets, curves and surfaces contains the whole object, and boxes computed from points are the tightest such box. "
  "Intersection, containment, ray and segment tests answer exactly as the closed boxes they are given (touching and flat boxes included); intersection, merging, splitting, expansion and evaluation return the set the operation names, with derived extents (centre, dimensions) in step.",
  "all point sets, boxes, rays and segments, touching and degenerate ones included",
  "No test exercises box predicates directly; touching, flat and nested boxes decide different branches.",
  ["mmcore/numeric/_aabb.pyx", "mmcore/numeric/aabb.py", "mmcore/geom/bvh/__init__.py", "mmcore/api/bbox.py", N],
  [("aabb and predicates", "mmcore/numeric/_aabb.pyx"), ("BoundingBox", "mmcore/geom/bvh/__init__.py:BoundingBox"), ("api boxes", "mmcore/api/bbox.py")],
  "Every predicate and operation compared with per-axis interval arithmetic on lattice boxes (touching and flat ones common), exact clipping for rays and segments, and sampled curves and surfaces against their boxes.", REF)

P("C10", "Closest points and inversions find the nearest parameter, inside the domain",
  "The closest-point queries on curves and surfaces (single, batched, local, ray and foot-point forms) return a parameter inside the domain whose distance to the query is the smallest one within the tolerance asked for. "
  "Inversion of a point that lies on the curve or surface, started near it, returns a parameter that maps back to the point.",
  "all curves and surfaces with a single nearest point, all query points and tolerances",
  "No test calls these functions; convergence, end parameters and batching only show over many inputs.",
  ["mmcore/numeric/closest_point.py", "mmcore/numeric/divide_and_conquer.py", "mmcore/numeric/algorithms/point_inversion.py", "mmcore/numeric/routines/__init__.py"],
  [("closest point", "mmcore/numeric/closest_point.py"), ("inversion", "mmcore/numeric/algorithms/point_inversion.py"), ("search", "mmcore/numeric/divide_and_conquer.py")],
  "Answers compared with dense sampling refined around the best sample, and with closed forms for lines, circles and rectangles.", REF)

P("C11", "Curve x curve and curve x implicit intersections are sound and complete",
  "Every reported intersection lies on both curves (or on the curve and the zero set) within tolerance, at the reported parameters, and every transversal crossing is reported (with an implicit form once; of two parametric curves perhaps by several entries within the tolerance). "
  "Distances between curves are attained and minimal, and boolean operations on closed curves cover exactly the union, intersection or difference of the enclosed regions.",
  "all pairs of open and closed parametric curves and implicit curves, positions, tolerances and operations",
  "Tests intersect a few fixed curves; crossings are lost or doubled only for particular positions relative to the subdivision.",
  ["mmcore/numeric/intersection/ccx/__init__.py", "mmcore/numeric/intersection/ccx/ccx.py", "mmcore/numeric/intersection/ccx/ccd.py", "mmcore/geom/curves/curve_bool.py", "mmcore/geom/implicit/tree/__init__.py"],
  [("curve x curve", "mmcore/numeric/intersection/ccx"), ("booleans", "mmcore/geom/curves/curve_bool.py"), ("curve x implicit", "mmcore/numeric/intersection/ccx")],
  "Each reported point is put into both curves; the whole set is compared with crossings found by refined dense sampling or in closed form, booleans with winding numbers.", REF)

P("C12", "Curve x surface and border intersections are sound and complete",
  "Every reported intersection of a curve and a surface lies on both at the reported parameters, inside both domains and in the order promised, and every transversal crossing is reported exactly once. "
  "A curve meets a plane exactly at the zeros of its signed distance, and the intersections of each surface's border with the other surface are all found, with their parameters.",
  "all pairs of a NURBS curve and a NURBS or other parametric surface, all planes, positions, domains and tolerances",
  "Tests intersect a few fixed pairs; crossings are lost or doubled for particular positions relative to the subdivision.",
  ["mmcore/numeric/intersection/csx/__init__.py", "mmcore/numeric/intersection/csx/_ncsx.py", "mmcore/numeric/intersection/ssx/boundary_intersection.py", N],
  [("curve x surface", "mmcore/numeric/intersection/csx"), ("border intersections", "mmcore/numeric/intersection/ssx/boundary_intersection.py"), ("equations", N + ":CurveSurfaceEq")],
  "Surfaces are height fields, so crossings are bracketed on the curve by the sign of the height and refined independently; reported points are put into both objects.", REF)

P("C13", "Surface x surface intersection covers the true intersection and stays on both",
  "Each curve returned for two NURBS surfaces lies on both surfaces, its two parametric companions lie on their surfaces and follow it, and open curves end at the border of a surface. "
  "Together the curves cover the intersection; surfaces that are apart have none, and the patch pairs offered by the subdivision contain every point of the intersection.",
  "all pairs of NURBS surfaces that cross transversally, all positions, domains and tolerances",
  "Tests trace two fixed pairs; tracing loses, shortens or detours branches only for particular pairs.",
  ["mmcore/numeric/intersection/ssx/surface_surface.py", "mmcore/numeric/intersection/ssx/_terminator.py", "mmcore/numeric/gauss_map.py", "mmcore/numeric/intersection/ssx/boundary_intersection.py", "mmcore/numeric/algorithms/point_inversion.py"],
  [("tracing", "mmcore/numeric/intersection/ssx/surface_surface.py:MarchingMethod"), ("subdivision", "mmcore/numeric/gauss_map.py:detect_intersections"), ("entry", "mmcore/numeric/intersection/ssx/surface_surface.py:ssx")],
  "Pairs of height fields: the true intersection is the zero contour of the height difference, found on a fine grid and compared with the traced curves both ways.", REF)

P("C14", "BVH queries return what an exhaustive search over the objects returns",
  "Every node's box contains its children's boxes and every object is in the tree exactly once. "
  "Box, point, ray, segment, nearest and tree-against-tree queries return exactly the objects (and for meshes the crossing points) that testing every object returns.",
  "all sets of boxes, triangles, segments and queries, flat and touching ones included",
  "No test queries the tree; pruning errors only lose a few objects, in particular configurations.",
  ["mmcore/geom/bvh/__init__.py", "mmcore/numeric/algorithms/moller.pyx", "mmcore/numeric/_aabb.pyx"],
  [("build and query", "mmcore/geom/bvh/__init__.py"), ("triangle intersection", "mmcore/numeric/algorithms/moller.pyx")],
  "Random scenes on a lattice (ties and flat boxes common); every answer compared with brute force over all objects.", REF)

P("C15", "Implicit solids are the sets their distance functions and operations name",
  "Spheres, cylinders, tubes and circles give the signed distance, unit gradient and bounds of the solid they name, also after their parameters change, and union, intersection and difference combine any shapes pointwise with bounds that contain the result. "
  "Spatial trees cover their box exactly once and class each cell by the signs at its corners; circle intersections, tangents and closest points satisfy their equations.",
  "all primitives, directions (axis-aligned ones included), edit histories, expression trees of set operations, tree depths and probe points",
  "Implicit shapes have one visual example and no test; errors show only for some directions, operand orders or quadrants.",
  ["mmcore/geom/primitives.pyx", "mmcore/geom/implicit/implicit.py", "mmcore/geom/implicit/tree/tree2d.py", "mmcore/geom/implicit/tree/tree3d.py", "mmcore/geom/implicit/tree/collapse2d.py", "mmcore/geom/implicit/tree/collapse3d.py", "mmcore/geom/circle.py"],
  [("distances and gradients", "mmcore/geom/primitives.pyx"), ("set operations", "mmcore/geom/implicit/implicit.py"), ("trees", "mmcore/geom/implicit/tree"), ("circles", "mmcore/geom/circle.py")],
  "Closed forms evaluated beside the library at random, near-surface and axis points; trees re-classified cell by cell on the finest grid.", REF)

P("C16", "Tracing and projection on implicit curves and surfaces stay on the zero set",
  "Points traced along an implicit curve or along the intersection of two implicit surfaces lie on it, are evenly spaced, run in one direction, and cover each closed branch exactly once. "
  "Projection reaches the zero set or reports failure, queries on an intersection curve return its nearest point and orthonormal frame, rasterization finds every grid point near the curve, and point-in-curve tests agree with the winding number.",
  "all smooth implicit shapes, start points near them, steps, tolerances and options",
  "Tests trace no implicit curve; a misjudged stop, direction or convergence shows only for particular steps and starts.",
  ["mmcore/numeric/marching.py", "mmcore/numeric/algorithms/implicit_point.py", "mmcore/numeric/intersection/implicit_implicit.py", "mmcore/geom/implicit/implicit.py", "mmcore/numeric/algorithms/point_in_curve.py"],
  [("projection", "mmcore/numeric/algorithms/implicit_point.py"), ("marching", "mmcore/numeric/marching.py"), ("intersection curves", "mmcore/numeric/intersection/implicit_implicit.py")],
  "Every returned point is put back into the equations; loops are compared with analytic ellipses, Cassini ovals and surface intersections.", REF)

P("C17", "Interval arithmetic encloses pointwise arithmetic",
  "The interval result of +, -, *, /, powers, max, min and any expression built from them contains the value at every point of the operand intervals, and its ends are attained. "
  "Intersection, union, containment and subdivision are those of the sets, and comparisons are true only when definite (or, for <= and >=, possible).",
  "all intervals (negative, zero-crossing, degenerate), scalars, exponents and expression trees",
  "No test uses intervals; enclosure fails only for particular sign combinations.",
  ["mmcore/numeric/interval/_interval.py"],
  [("Interval", "mmcore/numeric/interval/_interval.py:Interval")],
  "Dyadic end points, exact (rational) expected ends; points inside the operands are pushed through the same expression.", REF)

P("C18", "Containers behave as the abstract collections they stand for",
  "After any history of operations the AVL map, circular list, union-find, R-tree and k-d tree hold exactly what a plain map, list, partition or multiset subjected to the same history holds, and searches in them answer as exhaustive search does. "
  "Their structural invariants (order, balance, links, boxes, sizes) hold after every step, and invalid operations are refused without damage.",
  "all operation histories, keys, values, boxes and points, duplicates and ties included",
  "The containers have no tests; their errors need particular histories (deleting a node with two children, inserting at the front, splitting deep nodes).",
  ["mmcore/ds/tree/avl.py", "mmcore/ds/cdll/cdll.py", "mmcore/ds/union_find.py", "mmcore/ds/tree/rtree.py", "mmcore/ds/bkdtree.py"],
  [("AVL", "mmcore/ds/tree/avl.py"), ("CDLL", "mmcore/ds/cdll/cdll.py"), ("R-tree", "mmcore/ds/tree/rtree.py"), ("k-d tree", "mmcore/ds/bkdtree.py"), ("union-find", "mmcore/ds/union_find.py")],
  "Model-based runtime monitoring: a plain Python collection is updated beside the container and the whole contents and all invariants are compared after every operation.", REF, over=("histories",))

P("C19", "The sweep line reports every shared point of segments and nothing else",
  "For every set of segments find_intersection lists, for each segment, exactly the interior points that it shares with another one (crossings, many through one point, ends lying on it), once each and in place to rounding, in whatever order, direction or orientation the segments are given. "
  "Its event queue, skip list and sorted sequence are ordered maps: after any history of insertions, deletions, lookups and reversals they hold what a plain map does, in order, with consistent links.",
  "all sets of segments without overlapping collinear ones, all orders of them; all operation histories of the containers",
  "Nothing tests the sweep; its errors need several segments through one point, T-junctions, vertical segments or particular deletion orders.",
  ["mmcore/numeric/algorithms/sweep_line/sweep_intersector.py", "mmcore/numeric/algorithms/sweep_line/skiplist.py", "mmcore/numeric/algorithms/sweep_line/sortseq.py", "mmcore/numeric/algorithms/sweep_line/priority_queue.py", "mmcore/numeric/algorithms/sweep_line/segment.py", "mmcore/numeric/algorithms/sweep_line/point.py"],
  [("sweep", "mmcore/numeric/algorithms/sweep_line/sweep_intersector.py:SweepIntersector"), ("sorted sequence", "mmcore/numeric/algorithms/sweep_line/sortseq.py"), ("skip list", "mmcore/numeric/algorithms/sweep_line/skiplist.py")],
  "Reported points are compared with those of all pairs computed in rational arithmetic, on general, lattice and polygon inputs; containers with a plain map after every step.", REF, over=("inputs", "histories"))

P("C20", "Numeric differentiation gives the derivatives of the function it is given",
  "Every finite difference routine (derivatives, gradients, Jacobians, Hessians, mixed and second derivatives, one point or many) agrees with the exact derivative within the order of its formula, "
  "for every scheme, for integer and list arguments, and leaves its arguments unchanged. Critical points are classified by the true definiteness of the Hessian.",
  "all smooth functions of one or more variables, points, steps and difference schemes",
  "Tests differentiate one function; wrong coefficients, indices or transpositions cancel for symmetric functions.",
  ["mmcore/numeric/fdm.py", "mmcore/numeric/newton/cnewton.pyx"],
  [("finite differences", "mmcore/numeric/fdm.py"), ("compiled derivatives", "mmcore/numeric/newton/cnewton.pyx")],
  "Random polynomials and trigonometric functions with known derivatives; tolerances follow from bounds on the next derivative and rounding.", REF)

P("C21", "Root finders return roots and minimizers return minima",
  "What a root finder returns is a root within its tolerance, all roots are returned where it promises so, and what a minimizer returns is the minimum of the interval or box with the value of the function there. "
  "Bounded methods neither evaluate nor answer outside their bounds; failure to converge is reported, not returned as an answer.",
  "all functions meeting the method's stated hypotheses, intervals, boxes, tolerances and starts",
  "Tests use one or two functions; bounds, pivoting and stopping rules matter for particular starts only.",
  ["mmcore/numeric/divide_and_conquer.py", "mmcore/numeric/bisection.py", "mmcore/numeric/fdm.py", "mmcore/numeric/newton/cnewton.pyx", "mmcore/numeric/newton/bounded.py"],
  [("divide and conquer", "mmcore/numeric/divide_and_conquer.py"), ("bisection", "mmcore/numeric/bisection.py"), ("Newton", "mmcore/numeric/newton")],
  "Functions with planted roots and minima; the function itself is monitored, so evaluations outside the bounds are seen.", REF)

P("C22", "Lengths, areas, integrals and grids are those of the object measured",
  "Definite integrals, antiderivatives, arc lengths of curves, lengths of parts of them, areas of surface patches and the parameter at a given length agree with the exact values within the requested accuracy. "
  "Lengths add over parts, change sign or stay with reversal as documented, do not depend on the parametrization and follow a change of the curve. Parameter grids hold exactly the stated points.",
  "all smooth integrands, curves, surfaces, intervals (reversed, shifted, partial), tolerances and grid sizes",
  "Tests measure one length; a stale table or a wrong bound shows only for a shifted interval, a reversal or after an edit.",
  ["mmcore/numeric/integrate/romberg.pyx", "mmcore/numeric/arc_length.py", "mmcore/numeric/numeric.py", "mmcore/geom/curves/curve.py", "mmcore/geom/curves/bspline.py", "mmcore/numeric/algorithms/surface_area.py", "mmcore/numeric/routines/_routines.pyx", "mmcore/numeric/prime.py"],
  [("Romberg", "mmcore/numeric/integrate/romberg.pyx"), ("lengths", "mmcore/numeric/arc_length.py"), ("curves", "mmcore/geom/curves/curve.py"), ("areas", "mmcore/numeric/algorithms/surface_area.py")],
  "Closed forms, Gauss quadrature on each knot span, and metamorphic relations (additivity, reversal, reparametrization, edits).", REF, over=("inputs", "histories"))

P("C23", "Constructed curves and surfaces interpolate the data they are built from",
  "An interpolating spline passes through its points in order, a ruled surface joins corresponding points of its two curves and reproduces them at its borders, an offset curve keeps its distance along the curve's own normal, and combined curves evaluate to the combination. "
  "Parameters, knot vectors and their helpers (averaging, normalization, multiplicities, comparison, composition) satisfy their defining formulas.",
  "all point sets, degrees, parametrizations, pairs of curves of different degree, knots and weights, offsets",
  "Tests build few objects; errors show only for a degree, multiplicity or weight that the test data lack.",
  ["mmcore/geom/curves/bspline.py", "mmcore/geom/curves/knot.py", "mmcore/construction/ruled.py", "mmcore/geom/curves/offset.py", "mmcore/geom/curves/curve.py"],
  [("interpolation", "mmcore/geom/curves/bspline.py:interpolate_nurbs_curve"), ("ruled surfaces", "mmcore/construction/ruled.py"), ("knots", "mmcore/geom/curves/knot.py")],
  "Every built object is evaluated at its data and between them and compared with the source curves and with closed formulas.", REF)

P("C24", "Vector, plane, curvature and sorting kernels agree with linear algebra",
  "The compiled and Python kernels for dot, cross, norms, projections, small linear systems, planes and frames, plane intersections, curvature and tangent frames return what the textbook definition gives, for every shape and memory layout they accept. "
  "Singular cases are reported or take the documented limit, and sorting, argsort and unique agree with an ordinary stable sort.",
  "all vectors, matrices, planes and arrays, degenerate, strided, integer and nearly singular ones included",
  "These kernels carry everything else but tests touch few of them; wrong pivots, strides and limits need special data.",
  ["mmcore/numeric/vectors.pyx", "mmcore/numeric/plane/__init__.py", "mmcore/numeric/plane/cplane.pyx", "mmcore/numeric/numeric.py", "mmcore/numeric/calgorithms.pyx", "mmcore/numeric/algorithms/quicksort.pyx", "mmcore/numeric/algorithms/tnb.py"],
  [("vectors", "mmcore/numeric/vectors.pyx"), ("planes", "mmcore/numeric/plane"), ("curvature", "mmcore/numeric/calgorithms.pyx"), ("sorting", "mmcore/numeric/algorithms/quicksort.pyx")],
  "Each kernel runs beside a numpy or rational reference on random, degenerate, sliced and non-contiguous arrays.", REF)

P("C25", "Polygon areas, membership, clipping and booleans agree with set theory",
  "Areas, orientation and membership of polygons agree with their definition for every place, scale and vertex order; segments are reported to cross exactly when they do; clipping and hulls return the points of the set they denote. "
  "Union, intersection and difference contain exactly the points they should, disjoint and nested operands included, and leave the operands as they were.",
  "all simple polygons (either orientation, level vertices, far from the origin, tiny or large) and probe points",
  "No test covers polygons; traversal direction, containment and level vertices matter for particular configurations only.",
  ["mmcore/geom/polygon.py", "mmcore/geom/features.py", "mmcore/geom/vec/__init__.py", "mmcore/geom/surfaces/__init__.py", "mmcore/numeric/algorithms/point_in_curve.py"],
  [("polygons", "mmcore/geom/polygon.py"), ("orientation", "mmcore/geom/features.py"), ("trimmed surfaces", "mmcore/geom/surfaces/__init__.py")],
  "Crossing numbers and areas are computed independently; boolean results are probed at random points and by their area.", REF)

P("C28", "Results depend on the arguments alone, and arguments stay as they are",
  "Calling an operation again, after other calls, with an equal copy of its arguments, or from several threads at once gives bitwise the same result, whatever memory the process freed before. "
  "Queries and constructions do not change their arguments; only editing methods change their own object.",
  "all histories of calls, contents of free memory, and interleavings of threads, for operations of every module",
  "A test calls a function once in a fresh process; uninitialised buffers, aliased state and caches need a history to show.",
  ["mmcore/geom/nurbs.pyx", "mmcore/geom/parametric.pyx", "mmcore/geom/primitives.pyx", "mmcore/numeric/vectors.pyx", "mmcore/numeric/calgorithms.pyx", "mmcore/numeric/plane/cplane.pyx", "mmcore/geom/bvh.py", "mmcore/numeric/intersection/csx/__init__.py"],
  [("splines", "mmcore/geom/nurbs.pyx"), ("kernels", "mmcore/numeric/vectors.pyx"), ("planes", "mmcore/numeric/plane/cplane.pyx")],
  "Freed memory is filled with NaN, huge and tiny values between calls; results and arguments are compared byte by byte.",
  "runtime monitoring: bitwise comparison of repeated, poisoned, interleaved and threaded executions", over=("inputs", "histories", "schedules"))

P("C29", "Separability tests never part sets that meet and part those clearly apart",
  "Convex hull tests (GJK, spatial separability) call two sets disjoint exactly when their hulls are, with touching within rounding left open, for boxes with lattice corners exactly. "
  "Spherical tests (bounding box, wedge, circles, hull) report separability of direction cones only when a plane separates them, and support functions return an extreme point.",
  "all pairs of point sets: flat, collinear, nested, distant, touching, of any scale, in any order",
  "No test calls these; a wrong 'disjoint' silently drops intersections for particular configurations.",
  ["mmcore/numeric/algorithms/cygjk.pyx", "mmcore/numeric/intersection/separability/spatial.py", "mmcore/numeric/intersection/separability/spherical.py", "mmcore/numeric/vectors.pyx"],
  [("hull test", "mmcore/numeric/algorithms/cygjk.pyx:gjk"), ("spatial", "mmcore/numeric/intersection/separability/spatial.py"), ("spherical", "mmcore/numeric/intersection/separability/spherical.py")],
  "The distance of the two hulls is computed independently by non-negative least squares, cones by linear algebra; every verdict is compared.", REF)

P("C30", "Polynomial forms of patches agree and Gauss maps bound their normals",
  "Conversions between Bezier and power form keep the surface, and products, derivatives and normals in power form are those of the surface. "
  "A Gauss map of a patch or of any of its subdivisions, rational ones included, is parallel to the normal and its control points span a cone that contains every normal; vectors reported as separating two maps do separate them.",
  "all Bezier patches of any degree and weights, all subdivisions, all parameters",
  "No test evaluates these; they decide silently where intersection stops subdividing, so an error loses intersection loops.",
  ["mmcore/numeric/monomial.py", "mmcore/numeric/gauss_map.py", "mmcore/numeric/binom.pyx"],
  [("forms", "mmcore/numeric/monomial.py"), ("Gauss maps", "mmcore/numeric/gauss_map.py")],
  "Bernstein sums and exact derivatives written independently give the reference; containment in the cone is decided by least squares.", REF)

P("C31", "Triangulations are valid Delaunay triangulations of their input",
  "A triangulation covers exactly the given points' hull or the region inside the given loops and outside the holes, with positively oriented triangles that meet edge to edge, keeps every input vertex and segment, and satisfies the (constrained) empty-circle condition. "
  "Options are honoured: area and angle bounds, markers, attributes, regions, neighbours, edges, refinement; hulls, Voronoi diagrams and loaded files are those of the same data, and unusable input is refused without harm to the process.",
  "all point sets (repeated, collinear, cocircular), planar straight-line graphs with crossings and holes, and option strings",
  "No test triangulates anything; wrong indices, stale markers or lost segments appear only for particular inputs.",
  ["mmcore/topo/mesh/triangle/core.pyx", "mmcore/topo/mesh/triangle/tri.py", "mmcore/topo/mesh/triangle/data.py", "mmcore/topo/mesh/triangle-c/triangle.c"],
  [("wrapper", "mmcore/topo/mesh/triangle/core.pyx"), ("arguments", "mmcore/topo/mesh/triangle/tri.py"), ("loading", "mmcore/topo/mesh/triangle/data.py")],
  "Each result is judged in rational arithmetic: orientation, area, conformity, empty circles, region membership.", REF)

P("C26", "STEP files written are well formed and hold the same curves and surfaces",
  "Whatever is added to a STEP writer, in any order, the text it writes parses as ISO 10303-21, every instance is defined once and every reference leads to an instance of the kind its attribute requires. "
  "The curves, surfaces, weights, knots, points, planes, names, colours and styles read back are those added; the bound of a face is a closed chain of edges along the border of its surface; writing twice gives the same text, later additions leave earlier instances alone, and assignments read back hold the written values.",
  "all curves and surfaces (rational or not), names, colours, and histories of additions",
  "No test writes a file; a lost weight or a dangling reference shows only in another program.",
  ["mmcore/compat/step/step_writer.py", "mmcore/numeric/intersection/ssx/boundary_intersection.py"],
  [("writer", "mmcore/compat/step/step_writer.py")],
  "An independent reader parses the written text, a transcription of the schema judges the attributes and the reference evaluator rebuilds the geometry.", REF, over=("inputs", "histories"))

P("C27", "Compiled kernels stay inside their memory, free it, and have defined behaviour",
  "No operation reachable with arrays of the documented shape reads or writes outside its buffers, uses memory after freeing it, executes C undefined behaviour, crashes the process or fails to terminate. "
  "Inputs that violate a precondition (wrong counts, negative degrees, decreasing knots, damaged bytes, NaN or far parameters, impossible edits) are refused or evaluated harmlessly. "
  "Repeating an operation does not make the heap grow.",
  "all inputs of all compiled kernels: splines, surfaces, intersections, trees, vectors, triangulation, in any memory layout",
  "The extensions switch bounds checks off; an access past a buffer usually reads a plausible value, so tests that compare results pass.",
  ["mmcore/geom/nurbs.pyx", "mmcore/geom/nurbs.pxd", "mmcore/geom/curves/_nurbs.pyx", "mmcore/geom/parametric.pyx", "mmcore/geom/primitives.pyx", "mmcore/geom/cimplicit.pyx", "mmcore/numeric/_aabb.pyx", "mmcore/numeric/vectors.pyx", "mmcore/numeric/calgorithms.pyx", "mmcore/numeric/plane/cplane.pyx", "mmcore/topo/mesh/triangle/core.pyx", "mmcore/topo/mesh/triangle-c/triangle.c"],
  [("splines", "mmcore/geom/nurbs.pyx"), ("bounds checks off", "mmcore/geom/nurbs.pxd"), ("triangulation", "mmcore/topo/mesh/triangle-c/triangle.c")],
  "Every extension is rebuilt with AddressSanitizer and UndefinedBehaviorSanitizer and runs the workloads of the other properties and hostile ones; the sanitizers' reports and the allocator's statistics decide.",
  "runtime monitoring: AddressSanitizer and UndefinedBehaviorSanitizer builds of all extension modules, heap-growth monitor over repeated operations")
