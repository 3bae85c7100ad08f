"""The properties and how each is decided; gen.py turns this into properties.jsonl and MANIFEST.json."""
PROPS = [
    dict(
        id="C01", title="Every way of evaluating a NURBS curve gives the point of its definition",
        statement="For every NURBS curve (any degree, any valid knot vector - clamped, unclamped, half clamped or periodic - and any positive weights) and every parameter of its domain, ends and knots included, single evaluation, batch evaluation, homogeneous evaluation, calling the curve and the zeroth derivative all return the point defined by the Cox-de Boor recursion. The knot span and basis functions behind them agree with that definition too, and periodic curves take any parameter modulo their period.",
        over=["inputs"], quant="all curves over a finite grid of degrees, knot multiplicity patterns, spacings and weight patterns; all knots, span interiors and floats adjacent to knots",
        why="The tests evaluate a handful of cubic curves with unit weights; span search, repeated knots, the ends of the domain, rational and periodic curves are untested.",
        files=["mmcore/geom/nurbs.pyx", "mmcore/geom/nurbs.pxd"],
        mechanism=[("span search, basis functions, curve_point", "mmcore/geom/nurbs.pyx"), ("NURBSCurve.evaluate / evaluate_multi / evaluate4d / __call__", "mmcore/geom/nurbs.pyx")],
        technique="exhaustive enumeration of bounded curves x parameters on the real code against an exact rational reference model",
        note="Every curve and parameter of the stated finite space is executed; the model is the Cox-de Boor recursion in exact rational arithmetic. Trusts the tolerance 1e-9 and the small-binary-fraction alphabet.",
    ),
    dict(
        id="C02", title="Curve derivatives, tangents, normals and curvature are the exact ones",
        statement="For every NURBS curve, rational or not, and every parameter of its domain, the derivatives of every order it reports equal the exact one-sided (right-continuous) derivatives of the curve it evaluates, whichever of its derivative routines is asked. Tangent, normal, frame and curvature derived from them follow their definitions, and the derivatives of basis functions and of control points agree with the definition.",
        over=["inputs"], quant="all curves of a finite grid of degrees, knot patterns and weights x all knots and span interiors x all derivative orders up to degree + 1",
        why="The tests compare first derivatives of unweighted curves at a few parameters; rational curves, derivatives above the degree and repeated knots are not reached.",
        files=["mmcore/geom/nurbs.pyx", "mmcore/geom/parametric.pyx"],
        mechanism=[("curve_derivs_alg1/alg2, rat_curve_derivs, ders_basis_funs", "mmcore/geom/nurbs.pyx"), ("NURBSCurve.derivative / tangent / normal / curvature / plane_at", "mmcore/geom/nurbs.pyx"), ("ParametricCurve finite differences", "mmcore/geom/parametric.pyx")],
        technique="exhaustive enumeration of bounded curves x parameters x orders on the real code against exact rational derivatives",
        note="Every case of the stated finite space is executed and compared with exact rational derivatives (quotient rule applied exactly).",
    ),
    dict(
        id="C03", title="Shape-preserving operations on curves never change the curve",
        statement="After any history of inserting or multiplying knots, splitting, trimming, decomposing into Bezier pieces, reversing, flipping, normalising and refining, every resulting NURBS curve - rational, unclamped or periodic ones included - traces the same points as the corresponding stretch of the original at the corresponding parameters. The pieces of a split or decomposition cover the whole domain, the knot vector, interval and Greville abscissae stay consistent, and operations that return new curves leave their operand untouched.",
        over=["histories"], quant="all operation sequences up to the stated depth from every start curve of a finite grid, every parameter argument taken at all knots and span middles",
        why="The tests split a curve or two once; sequences of operations, repeated knots, weights, ends of the domain and unclamped knot vectors are not reached.",
        files=["mmcore/geom/nurbs.pyx"],
        mechanism=[("insert_knot, multiply_knot, split_curve, split_curve2, trim, decompose_curve, reverse_curve, flip, normalize_knots, knot_refinement", "mmcore/geom/nurbs.pyx")],
        technique="explicit-state exploration of all operation histories up to a depth on the real objects, each state compared with an exact reference curve",
        note="Every sequence within the bound is executed; states are deduplicated by exact knots, control points and parameter map. Agreement within 1e-8.",
    ),
    dict(
        id="C04", title="The knot algorithms keep the curve and its multiplicities",
        statement="The knot insertion, removal and refinement routines - compiled and Python ones, on control points of any dimension, weighted or not - return control points and a knot vector that define the same spline as the ones given, at every parameter. Insertion and refinement produce exactly the requested multiplicities; removing a knot that was inserted gives the original back; merging two knot vectors keeps the larger multiplicity of every knot, counting knots equal up to rounding once, and refining a curve to the merged vector keeps the curve.",
        over=["inputs"], quant="all knot vectors of a finite grid x all insertion parameters and counts (pairs of insertions included) x all refinement lists and densities x all pairs of knot vectors to merge",
        why="The tests insert one knot into one curve; repeated knots, boundaries, densities and the Python variants are never executed.",
        files=["mmcore/geom/nurbs.pyx", "mmcore/geom/curves/knot.py"],
        mechanism=[("knot_insertion, knot_insertion_kv, knot_removal, knot_removal_kv, knot_refinement", "mmcore/geom/nurbs.pyx"), ("knot_insertion, find_span_linear, find_multiplicity, merge_knot_vectors, refine_curve", "mmcore/geom/curves/knot.py")],
        technique="exhaustive enumeration of knot vectors and operation pairs on the real routines against an exact rational reference model",
        note="Every combination in the bound is executed; the returned spline is compared with the exact one at knots and span interiors, tolerance 1e-9.",
    ),
    dict(
        id="C05", title="Constructed curves and ruled surfaces are the ones their inputs describe",
        statement="Interpolation of any sequence of points (degree and parametrisation as chosen, adjacent duplicates counted once) passes through every point at its parameter, on the averaged knot vector. Degree elevation keeps the curve, rational or not; joining or composing curves traces the first and then the next, whichever ends touch and whatever their degrees; and a ruled surface has the two given curves as its opposite edges and is their linear blend in homogeneous space, whatever their degrees, weights and knot vectors.",
        over=["inputs"], quant="all point sequences over a small alphabet x degree x parametrisation; all curves of a finite grid x elevation; all end pairings x degrees x weights; all pairs of curves of a finite grid",
        why="Only one or two constructions are tested on one input each; repeated points, unequal degrees, weights and the orientation cases are not.",
        files=["mmcore/geom/curves/knot.py", "mmcore/geom/curves/bspline.py", "mmcore/construction/ruled.py"],
        mechanism=[("interpolate_curve, degree_elevate_curve, degree_elevation_bez, join_two_curves, compose_curves, generate_knot", "mmcore/geom/curves/knot.py"), ("ruled, make_curves_compatible", "mmcore/construction/ruled.py"), ("interpolate_nurbs_curve", "mmcore/geom/curves/bspline.py")],
        technique="exhaustive enumeration of bounded construction inputs on the real code against exact reference curves",
        note="Every input of the bound is executed; results are compared at knots and span interiors with the exact curve, tolerance 1e-7 (interpolation) or 1e-8.",
    ),
    dict(
        id="C06", title="A curve object never answers from stale or shared state",
        statement="After any sequence of reading (evaluating, derivatives, intervals, Greville abscissae, bounding data) and changing a NURBS curve (assigning knots, control points, weights or degree, set(), normalising, inserting or multiplying knots, making it periodic or open, flipping), every read gives what a curve freshly built from the current degree, knots and control points gives. Copies - copy(), copy.copy, deepcopy, pickle, serialisation - are equal to the original and independent of it and of the arrays the caller passed in or got back: changing one never changes another.",
        over=["histories"], quant="all sequences of reads, changes and copies up to the stated depth from every start curve of a finite grid",
        why="The tests never change a curve after reading it; stale caches and shared buffers only show in histories of several operations.",
        files=["mmcore/geom/nurbs.pyx"],
        mechanism=[("NURBSCurve: evaluation cache, setters, set(), knots_update_hook, copy/__copy__/__deepcopy__/__reduce__", "mmcore/geom/nurbs.pyx")],
        technique="explicit-state exploration of all operation histories up to a depth on the real objects, every read compared with a freshly built curve and an exact reference",
        note="Every history within the bound is executed on the real object; aliasing is observed by re-reading every other live object after each change. The live view control_points of an object is documented as such and not written through.",
    ),
    dict(
        id="C07", title="Serialised curves and STEP files describe the geometry they came from",
        statement="A NURBS curve written as bytes or pickled, at any point of its history, reads back as an equal curve with the same degree, periodicity, knots, control points and weights; bytes written in the pinned format stay readable. Truncated data, a wrong magic or version, counts or a degree that do not fit together, and arguments that are not bytes are refused with ValueError or TypeError, never read beyond their end. A STEP file written by StepWriter is syntactically valid ISO 10303-21 with every reference resolved, whatever objects, names and magnitudes go into it, and the B-spline entities in it - knots, multiplicities, control points, weights, edge ends, and for a surface the closed loop of its four boundary edges - describe the curves and surfaces that were added.",
        over=["inputs", "histories", "fault_sequences"], quant="all curves and surfaces of a finite grid and states after two changes; every truncation length; every value of every header byte; all ordered pairs of objects in one STEP file",
        why="No test reads a serialised curve of other than one shape, corrupts one, or reads a STEP file back.",
        files=["mmcore/geom/nurbs.pyx", "mmcore/compat/step/step_writer.py"],
        mechanism=[("NURBSCurve.serialize / deserialize / __reduce__ / __getstate__ / __setstate__", "mmcore/geom/nurbs.pyx"), ("StepWriter", "mmcore/compat/step/step_writer.py")],
        technique="exhaustive enumeration of bounded objects, histories and data faults (every truncation and header byte) on the real code; independent Part 21 parser as oracle",
        note="Every object, fault and pair of the bound is executed. Exact equality for bytes and pickles; 1e-9 relative for STEP geometry.",
    ),
    dict(
        id="C08", title="Surfaces evaluate to the points and derivatives of their definition",
        statement="For every NURBS surface (any degrees, any valid knot vectors - repeated knots, shifted or unclamped domains - and any positive weights) and every parameter pair of its domain, ends and knots included, single evaluation, batch evaluation and the point routines all return the point of the tensor-product rational definition, and the interval is the domain of the knot vectors. The derivative routines return its exact partial derivatives of every order; derivative_u / derivative_v, second derivatives, normals and frames of any surface agree with them within the error of their finite differences. Ruled and bilinear surfaces are the exact blends of their curves or corners, with exact derivatives, and the distance functions between curves and surfaces are the squared distance of the points evaluated.",
        over=["inputs"], quant="all surfaces over a finite grid of degree pairs, knot vector pairs and weight patterns; all pairs of knots, span interiors and floats adjacent to knots; all partial orders up to 3; all ruled and bilinear surfaces of a finite grid",
        why="The tests evaluate a few unweighted surfaces on clamped unit domains; derivatives, ends of the domain, weights and unequal degrees are not reached.",
        files=["mmcore/geom/nurbs.pyx", "mmcore/geom/parametric.pyx"],
        mechanism=[("surface_point, surface_derivatives, rat_surface_derivs, surface_deriv_cpts, NURBSSurface", "mmcore/geom/nurbs.pyx"), ("ParametricSurface, Ruled, BiLinear", "mmcore/geom/parametric.pyx")],
        technique="exhaustive enumeration of bounded surfaces x parameters x derivative orders on the real code against an exact rational reference model",
        note="Every case of the stated finite space is executed. Exact routines are held to 1e-8, finite-difference methods to the Taylor bound of their step.",
    ),
    dict(
        id="C09", title="Shape-preserving operations on surfaces never change the surface",
        statement="After any history of inserting knots in either direction, splitting, subdividing, decomposing into Bezier patches (in one or both directions, normalising or not), normalising the knots and copying, every resulting NURBS surface has the same points as the corresponding part of the original surface at the corresponding parameters, and the parts of a split, subdivision or decomposition together cover the whole. Isocurves and boundary curves of a surface, rational ones included, trace the surface along the fixed parameter, and operations that return new surfaces leave their operand untouched.",
        over=["histories"], quant="all sequences of two operations from every start surface of a finite grid, every parameter argument taken at all knots and span middles and next to knots",
        why="The tests split or decompose one unweighted surface once; second operations, repeated knots, weights and shifted domains are not reached.",
        files=["mmcore/geom/nurbs.pyx", "mmcore/numeric/intersection/ssx/boundary_intersection.py"],
        mechanism=[("insert_knot_u/v, split_surface_u/v, subdivide_surface, decompose_surface, normalize_knots", "mmcore/geom/nurbs.pyx"), ("extract_isocurve, extract_surface_boundaries", "mmcore/numeric/intersection/ssx/boundary_intersection.py")],
        technique="explicit-state exploration of all operation histories up to a depth on the real objects, each state compared with an exact reference surface",
        note="Every sequence within the bound is executed; agreement within 1e-8 with the exact original.",
    ),
    dict(
        id="C10", title="A surface object never answers from stale or shared state",
        statement="After any sequence of reading and changing a NURBS surface (assigning knots or degree, normalising, inserting knots, copying), every read - knots, degree, shape, interval, the forms of the control points, bounding box, single and batch points, equality and hash - gives what a surface freshly built from the current degree, knots and control points gives. Copies and surfaces built from the data of another one are independent of it, and writing to the arrays passed in, to the knots or to the copies handed out never changes a surface.",
        over=["histories"], quant="all sequences of reads, changes and copies up to the stated depth from every start surface of a finite grid",
        why="The tests never change a surface after reading it; stale caches and shared buffers only show in histories of several operations.",
        files=["mmcore/geom/nurbs.pyx"],
        mechanism=[("NURBSSurface: constructor, setters, copy, normalize_knots, insert_knot_u/v, __eq__ / __hash__", "mmcore/geom/nurbs.pyx")],
        technique="explicit-state exploration of all operation histories up to a depth on the real objects, every read compared with an exact reference",
        note="Every history within the bound is executed on the real object; aliasing is observed by re-reading every live surface after each change. control_points_w is a live view by design and not written through.",
    ),
    dict(
    id="C11", title="Axis-aligned boxes: predicates, clipping and box algebra are exact",
    statement="For any finite points and boxes, the computed box of points is their exact componentwise minimum and maximum in every dimension; overlap, intersection, containment and merging of closed boxes are exact (touching boxes overlap); the parameter interval in which a segment or an unbounded ray meets a box, and the clipped segment, are the true ones or none. A BoundingBox object stays consistent (corners, edges, faces, centre, dimensions, volume, containment, signed distance, evaluation, parts after splitting) through any sequence of merging, intersecting, expanding and splitting, and the box of a NURBS curve or surface contains every point of it.",
    over=["inputs", "histories"],
    quant="all boxes, pairs, rays and segments of small integer grids in dimensions 1 to 4, all operation sequences on box objects up to the stated depth, all curves and surfaces of a finite family",
    why="Degenerate, touching and flat boxes, axis-parallel rays and boxes changed in place are corner cases no sampled test covers.",
    files=["mmcore/numeric/_aabb.pyx", "mmcore/numeric/aabb.py", "mmcore/geom/bvh/__init__.py", "mmcore/geom/nurbs.pyx"],
    mechanism=[("aabb, aabb_intersect, aabb_intersection, segment_aabb_intersect, segment_aabb_clip, ray_aabb_intersect", "mmcore/numeric/_aabb.pyx"), ("BoundingBox, Segment, get_aabb_corners_numpy, sd_aabb", "mmcore/geom/bvh/__init__.py"), ("NURBSCurve.bbox, NURBSSurface.bbox", "mmcore/geom/nurbs.pyx")],
    technique="exhaustive enumeration of a grid of boxes, rays and box histories on the real code against an exact reference",
    note="Everything within the grid is executed on the real code. Control points bound the curve only for positive weights.",
),
    dict(
    id="C12", title="Bounding volume hierarchies answer every query as brute force would",
    statement="A BVH built from any list of objects holds each object in exactly one leaf under boxes that are tight on their content, and leaves the caller's list as it was. Box, point, segment and ray queries, closest-leaf queries and the intersection of two trees return exactly the leaves (or pairs) that a test of every leaf would return, whatever the number of objects per leaf. Segment and ray queries on triangle meshes find a crossing exactly when some closed triangle is crossed, report the true points, and rays report every crossed triangle in order of distance; the triangle-segment kernels (single, batch, parallel, first hit) agree with exact arithmetic.",
    over=["inputs", "histories"],
    quant="all multisets of boxes and all sets of triangles of a finite family up to the stated size, all leaf sizes 1 to 3, all queries of a finite grid",
    why="Pruning errors need a particular arrangement (flat, nested, touching or equally centred boxes) and a particular query; tests sample a few meshes.",
    files=["mmcore/geom/bvh/__init__.py", "mmcore/numeric/algorithms/moller.pyx", "mmcore/numeric/_aabb.pyx"],
    mechanism=[("build_bvh, traverse_bvh, contains_point, find_closest, intersect_bvh, bvh_segment_intersection(_recursive), bvh_ray_intersection, mesh_bvh_ray_intersection, mesh_bvh_segment_intersection_one", "mmcore/geom/bvh/__init__.py"), ("intersect_triangle_segment, intersect_triangles_segment(_one, _parallel)", "mmcore/numeric/algorithms/moller.pyx")],
    technique="exhaustive enumeration of trees and queries on the real code against exact brute force",
    note="traverse_bvh2, contains_point2 and traverse_bvh_point have no stated meaning beyond their code and are not claimed. The kernels use an absolute tolerance, so coordinates are of unit scale.",
),
    dict(
    id="C13", title="The circular linked list is a sequence and union-find is a partition",
    statement="After any history of appends, insertions, removals by value or index, replacements and assignments, a CDLL holds exactly the values a plain list would hold, in order: length, iteration, indexing from both ends, membership, node access, both directions around the ring and the hooks called agree; refused operations (index out of range, missing value) raise ValueError and change nothing. UnionFind represents exactly the partition generated by the unions made, in any order, and group_tuples groups tuples exactly by the transitive closure of sharing a number.",
    over=["histories", "inputs"],
    quant="all operation histories up to the stated length from lists of up to 3 values, all union sequences on 4 elements and all graphs on 5, all lists of tuples up to the stated size",
    why="Broken links only show after particular combinations (removing the head, the last element, a repeated value, inserting at 0).",
    files=["mmcore/ds/cdll/cdll.py", "mmcore/ds/cdll/node.py", "mmcore/ds/union_find.py"],
    mechanism=[("CDLL", "mmcore/ds/cdll/cdll.py"), ("UnionFind, group_tuples", "mmcore/ds/union_find.py")],
    technique="explicit-state exploration of all operation histories up to a depth on the real objects against a list / partition model",
    note="States are identified by values and links; each history in the bound is executed on the real object.",
),
    dict(
    id="C14", title="The AVL tree is a balanced ordered map under any history",
    statement="After any history of insertions, assignments, appends and deletions, an AVL tree holds exactly the keys and values a dictionary would hold, in key order; every present key is found with its value and every absent one is not (indexing raises KeyError); the heights of the two subtrees of every node differ by at most one and the stored heights and balances are exact.",
    over=["histories"],
    quant="all insertion orders of up to 7 keys with families of deletion orders, all histories over 4 to 6 keys up to the stated depth, state by state",
    why="Wrong rotations or a lost value on deletion need particular shapes; no test deletes from a tree.",
    files=["mmcore/ds/tree/avl.py"],
    mechanism=[("AVL.insert / delete / append / rebalance / rotate_left / rotate_right / search / inorder_traverse", "mmcore/ds/tree/avl.py")],
    technique="explicit-state exploration of all operation histories on the real tree against a dictionary",
    note="States are the shapes of the tree with keys and values; continued once each.",
),
    dict(
    id="C15", title="The k-d tree and the R tree answer every query as a list would",
    statement="After any history of building, inserting and deleting, the balanced k-d tree stores exactly the points given (duplicates and equal coordinates included), keeps its split planes and stored sizes consistent, and its nearest and k-nearest queries return neighbours at exactly the smallest distances, in order. After any order of insertions the R tree holds every rectangle in nodes that cover it, within the node capacity and with all leaves at one depth, and a search returns exactly the stored rectangles that meet the query.",
    over=["histories", "inputs"],
    quant="all point sequences and insertion / deletion histories of a small grid up to the stated length, all insertion orders of up to 6 rectangles with 3 node sizes, longer sequences in 24 orders, all queries of the grid",
    why="Lost points and missed neighbours need equal coordinates or particular splits; the structures have no tests.",
    files=["mmcore/ds/bkdtree.py", "mmcore/ds/tree/rtree.py"],
    mechanism=[("BalancedKDTree.insert / delete / nearest_neighbor / k_nearest_neighbors", "mmcore/ds/bkdtree.py"), ("RStarTree.insert / search, Rectangle, Box", "mmcore/ds/tree/rtree.py")],
    technique="explicit-state exploration of build, insert and delete histories on the real trees against brute force",
    note="When several points are equally near any of them is accepted.",
),
    dict(
    id="C16", title="Convex hulls collide in GJK exactly when they come within the tolerance",
    statement="For any two finite sets of points in space - single points, flat, thin, nested, touching or crossing hulls, duplicate and interior points, in either order, in any orientation, scale and place, in any memory layout - both GJK implementations report a collision exactly when the convex hulls come within the tolerance of each other, and the spatial separability test reports separability exactly when they do not.",
    over=["inputs"],
    quant="all pairs of vertex sets of a cube at all grid offsets, all control polygons and nets and all pairs of solids of a finite family, in several affine images",
    why="Wrong answers need a degenerate or touching arrangement or a particular sequence of simplices; the tests call GJK only through two surface intersections.",
    files=["mmcore/numeric/algorithms/_gjk.cpp", "mmcore/numeric/algorithms/cygjk.pyx", "mmcore/numeric/algorithms/gjk.py", "mmcore/numeric/intersection/separability/spatial.py"],
    mechanism=[("gjk_collision_detection, nearestPoint, supportVector", "mmcore/numeric/algorithms/_gjk.cpp"), ("gjk_collision_detection, nearest_point, support_vector", "mmcore/numeric/algorithms/gjk.py"), ("spatial_separability", "mmcore/numeric/intersection/separability/spatial.py")],
    technique="exhaustive enumeration of pairs of point sets on the real code against the exact distance of the hulls (rational arithmetic)",
    note="A pair whose distance is within a few per cent of the tolerance may go either way (rounding).",
),
    dict(
    id="C17", title="Curve-surface intersection finds every intersection and nothing else",
    statement="For any NURBS curve and NURBS surface in general position (intersections further apart than the tolerance, transversal, not almost at an end or edge - exactly at an end of the curve, also on an edge or corner of the surface, is included), nurbs_csx returns each intersection exactly once, with parameters inside the domains, the point of both at these parameters within the tolerance, and its kind; csx returns the same parameters sorted along the curve (none gives an empty array) and curve_surface_intersection the same number. Degrees, weights, interior and multiple knots, parameter ranges and the placement and scale of the pair make no difference.",
    over=["inputs"],
    quant="all segments, parabolas, rational quadratics and cubics with control points in finite grids against 5 surfaces in 4 knot/weight forms and 5 placements",
    why="A missed intersection needs a particular arrangement of several crossings; the one test checks only that the points reported are near both shapes, not that none is missing.",
    files=["mmcore/numeric/intersection/csx/_ncsx.py", "mmcore/numeric/intersection/csx/__init__.py", "mmcore/numeric/intersection/separability/spherical.py", "mmcore/numeric/intersection/separability/spatial.py", "mmcore/numeric/newton/cnewton.pyx", "mmcore/geom/nurbs.pyx"],
    mechanism=[("NURBSCurveSurfaceIntersector, nurbs_csx", "mmcore/numeric/intersection/csx/_ncsx.py"), ("csx, curve_surface_intersection", "mmcore/numeric/intersection/csx/__init__.py"), ("spherical_separability", "mmcore/numeric/intersection/separability/spherical.py"), ("newtons_method", "mmcore/numeric/newton/cnewton.pyx"), ("CurveSurfaceEq, split_curve, subdivide_surface", "mmcore/geom/nurbs.pyx")],
    technique="exhaustive enumeration of curve-surface pairs on the real code against the exactly isolated roots of the implicit equation (Sturm)",
    note="Pairs not in general position (decided exactly) are enumerated but skipped and counted in the evidence. A point the curve passes twice is reported once.",
),
    dict(
    id="C18", title="Curve-curve intersection finds every intersection and nothing else",
    statement="For any two NURBS curves in general position (finitely many intersections, further apart than the tolerance, crossing at a clear angle or touching exactly, not almost at an end - exactly at an end, a knot or a corner is included), ccx and curve_ppx return every intersection exactly once as a pair of parameters inside the domains, sorted along the first curve, at which the two points lie within the tolerance of each other; curves further apart than the tolerance give an empty list. Degrees, weights, knots, parameter ranges, the placement in space, the scale and the order of the arguments make no difference.",
    over=["inputs"],
    quant="all polylines, quadratics, cubics, rational curves and splines with control points in finite grids against segments, polylines, a parabola, a quarter and a full circle in 5 placements and both orders",
    why="A missed crossing needs an arc that bulges between the samples of its box or several crossings in one piece; no test intersects two curved curves.",
    files=["mmcore/numeric/intersection/ccx/ccx.py", "mmcore/numeric/aabb.py", "mmcore/geom/nurbs.pyx"],
    mechanism=[("ccx, curve_ppx", "mmcore/numeric/intersection/ccx/ccx.py"), ("aabb_overlap", "mmcore/numeric/aabb.py"), ("NURBSCurve", "mmcore/geom/nurbs.pyx")],
    technique="exhaustive enumeration of curve pairs on the real code against the exactly isolated roots of the implicit equation (Sturm, gcd for touches)",
    note="Pairs not in general position are enumerated but skipped and counted in the evidence; curve_pix (parametric against an implicit function) is a sampling heuristic and not claimed.",
),
    dict(
    id="C19", title="Boolean operations on closed curves keep exactly the right boundary parts",
    statement="For two closed NURBS curves in one plane parallel to xy whose boundaries share no arc, curve_boolean_operation returns exactly these parts of the boundaries, each once: for UNION the parts of either curve outside the other, for INTERSECTION the parts inside the other, for DIFFERENCE the parts of the first outside the second and of the second inside the first (inside = odd winding number). Every returned piece is the piece of its curve over its own parameter interval, cut only where the other curve crosses or touches and at the seam. This holds whether the curves cross, touch, contain each other or are apart, whatever their degree, weights, orientation, seam, parameter range and alignment.",
    over=["inputs"],
    quant="all ordered pairs of 14 closed shapes at every relative position of a grid, with orientation, seam, parameter range and height varied",
    why="The classification of a piece went wrong only when a horizontal line through its middle met a corner or an edge of the other curve, or when the curves did not meet; the one test uses a single pair of squares.",
    files=["mmcore/geom/curves/curve_bool.py", "mmcore/numeric/intersection/ccx/ccx.py", "mmcore/geom/nurbs.pyx"],
    mechanism=[("curve_boolean_operation", "mmcore/geom/curves/curve_bool.py"), ("ccx", "mmcore/numeric/intersection/ccx/ccx.py"), ("split_curve_multiple, decompose_curve", "mmcore/geom/nurbs.pyx")],
    technique="exhaustive enumeration of shape pairs and positions on the real code against the winding number of every boundary sample",
    note="Boundary samples within 0.04 of the other boundary are not judged; overlapping boundaries are skipped.",
),
    dict(
    id="C20", title="Numerical derivatives are exact and Newton's method finds what it solves for",
    statement="Central differences (fdm, FDM, derivate, bounded_fdm, gradient, hessian, Grad, Hess and their batch forms, in fdm and in cnewton) give the exact derivative of every quadratic and forward and backward ones that of every affine function, for points of any type; they never change the caller's point, and the bounded forms never evaluate outside the bounds. newton_method2 and the Newton routines of cnewton and fdm find the root or stationary point whenever system or Hessian are nonsingular, a singular system is refused with ValueError; bounded_newtons_method stays inside its bounds, never ends above its start and finds the minimum of a convex quadratic; one-dimensional divide and conquer finds the minimum of a unimodal function to its tolerance.",
    over=["inputs"],
    quant="every quadratic function, system and matrix of a grid of coefficients, at every point of a grid of points, boxes and starts",
    why="Wrong stencils, pivots and termination show only for some coefficients: systems that need a row exchange, mixed second derivatives, starts on a bound, integer points; the tests try one function each.",
    files=["mmcore/numeric/fdm.py", "mmcore/numeric/newton/cnewton.pyx", "mmcore/numeric/newton/bounded.py", "mmcore/numeric/divide_and_conquer.py"],
    mechanism=[("fdm, bounded_fdm, FDM, Grad, Hess, gradient, hessian, newtons_method, newton_method2", "mmcore/numeric/fdm.py"), ("gradient, hessian, newtons_method, classify_critical_point_2d", "mmcore/numeric/newton/cnewton.pyx"), ("bounded_newtons_method", "mmcore/numeric/newton/bounded.py"), ("recursive_divide_and_conquer_min, iterative_divide_and_conquer_min", "mmcore/numeric/divide_and_conquer.py")],
    technique="exhaustive enumeration of functions, systems, points and boxes on the real code against exact rational derivatives and solutions",
    note="Not claimed: singular Hessians, constrained Newton, PDE, minimisers in two or more dimensions (heuristics).",
),
    dict(
    id="C21", title="Vector kernels and plane tools compute what they are defined to compute",
    statement="The vector functions - dot, cross, norm, unit, determinant, 2x2 and Jacobian solving, projection, decomposition, Gram-Schmidt, matrix products, support vectors, point order, coordinate conversions, closest points on lines and rays - return their mathematical value for every vector, alone or in batches, in every dimension they accept and in contiguous or strided arrays. Planes evaluate, invert, project and measure (signed) distances consistently; constructed frames are orthonormal and right-handed on the points, equation or normal given; the intersection of two planes is a point and direction on both, of three planes their common point; line and ray intersections lie on both; the batch forms agree with the single ones.",
    over=["inputs"],
    quant="every vector, pair, matrix, frame, pair and triple of planes with small integer entries, in every shape of batch",
    why="Errors sit in single components, pivots or batch strides: they need a particular sign pattern, a zero component, a degenerate pivot or a batch longer than one.",
    files=["mmcore/numeric/vectors.pyx", "mmcore/numeric/plane/__init__.py", "mmcore/numeric/plane/cplane.pyx"],
    mechanism=[("dot, cross, norm, unit, gram_schmidt, solve2x2, invert_jacobian, decompose_vector, closest_point_on_ray", "mmcore/numeric/vectors.pyx"), ("evaluate_plane, inverse_evaluate_plane, project, plane_from_3pt, plane_from_normal2, plane_eq_from_pts", "mmcore/numeric/plane/__init__.py"), ("plane_plane_intersect, planes_planes_intersect, plane_plane_plane_intersect, ray_plane_parametric_intersection", "mmcore/numeric/plane/cplane.pyx")],
    technique="exhaustive enumeration of integer vectors, matrices, frames and plane configurations on the real code against exact arithmetic",
    note="orient_matrix and the arbitrary vector of a plane are not claimed (ambiguous).",
),
    dict(
    id="C22", title="Tangents, curvatures, normals and fundamental forms are the classical ones",
    statement="From the derivatives of a curve or surface, the differential-geometry functions give the quantities they name: unit tangent, curvature vector, normal, frame and osculating circle of a curve; the Jacobian and unit normal of a surface, also where the partial derivatives are parallel or vanish; the curvature of the curve in which a plane cuts a surface or two surfaces meet; first and second fundamental forms, Gaussian, mean and principal curvatures with principal directions, the classification of points, lengths of steps on the surface and predicted points. The Python and compiled versions and the vectorised ones agree with the single Python ones, and arguments are left unchanged. At straight, umbilic and singular points the documented limit is returned, not NaN.",
    over=["inputs"],
    quant="every pair of derivative vectors, every singular partial configuration, every second form, every section and pair of surface jets with small integer components",
    why="The formulas branch on vanishing tangents, parallel partials, umbilics and signs of curvatures; errors in one branch or one term of a determinant show only there.",
    files=["mmcore/numeric/numeric.py", "mmcore/numeric/calgorithms.pyx", "mmcore/geom/surfaces/fundamental_forms.py", "mmcore/geom/evaluator/surface_evaluator.py"],
    mechanism=[("evaluate_tangent, evaluate_curvature, plane_on_curve, circle_of_curvature, normal_at", "mmcore/numeric/numeric.py"), ("evaluate_curvature, evaluate_jacobian, evaluate_normal2, evaluate_sectional_curvature, solve3x2", "mmcore/numeric/calgorithms.pyx"), ("principal curvatures and directions, classification, surface distance", "mmcore/geom/surfaces/fundamental_forms.py")],
    technique="exhaustive enumeration of derivative configurations with small integer components on the real code against exact rational formulas",
    note="Lines of curvature as integrated curves and parabolic Dupin curves are not claimed.",
),
    dict(
    id="C23", title="Curves and surfaces built from other curves follow what they are built from",
    statement="A Python curve (a wrapped function, trimmed, split, extended, offset, reparametrized, parametrized by arc length, or the sum, product, difference or quotient of others, a cubic spline) evaluates where its definition says, over its own interval, and asks its function for no parameter outside it; its first and second derivatives, tangents, normals, frames, curvature and osculating circle belong to that curve, its lengths equal the integral of the speed to the tolerance given, and the parameter at a length has that length before it. Python surfaces, bilinear, ruled and Coons surfaces interpolate their boundaries and have the derivatives, normals and planes of their definition; their isocurves, isolines (over the interval of the surface) and curves on them lie on them; the boundary built runs once around the domain and tells which parameters are inside. Many parameters at a time give the values of the single ones; changing a distance or interval takes effect in all queries.",
    over=["inputs", "histories"],
    quant="every polynomial curve of small degree and coefficients x interval x cut x reparametrization x distance; every surface of the families",
    why="The wrappers forward, cache or rescale; a mistake shows only at the end of an interval, after a change of interval or distance, or with an uneven parametrization.",
    files=["mmcore/geom/curves/curve.py", "mmcore/geom/surfaces/__init__.py", "mmcore/geom/curves/cubic.py", "mmcore/numeric/arc_length.py"],
    mechanism=[("Curve, CurveWrapper, TrimmedCurve, split_curve", "mmcore/geom/curves/curve.py"), ("Surface, CurveOnSurface, Ruled, Coons, BiLinear", "mmcore/geom/surfaces/__init__.py"), ("evaluate_length, evaluate_parameter_from_length", "mmcore/numeric/numeric.py")],
    technique="exhaustive enumeration of small polynomial curves, intervals, cuts and parametrizations on the real code against exact polynomials",
    note="Isocurves along diagonals, isolines on other domains than the unit square, surface inversion and offset surfaces are not claimed.",
),
    dict(
    id="C24", title="Implicit shapes, their combinations, trees and outlines describe one region",
    statement="Spheres, cylinders and tubes have the signed distance to their surface as value, its unit gradient, and bounds that contain them and touch them, before and after every change of centre, end or radius, and cylinders evaluate on their surface; astuple gives the numbers they were made of. Unions, intersections and differences of implicit shapes, nested either way, contain a point exactly when the Boolean combination of their parts does, lie in their bounds, have the value and gradient of the part that decides, and give the same values for many points as one at a time. Quadtrees and octrees of a shape tile its bounds and file every cell as full, empty or border by the signs at its corners, also when rebuilt at another depth; collapsed quadtrees and dual contouring find a finite feature in every leaf and join exactly those pairs of neighbouring leaves whose shared edge the outline crosses, also between leaves of different sizes, with features of lines, rectangles and circles on the outline. An octree dividing a box into cells of a given size tiles it, its nodes lie in their parents, and it finds the cell of every point and whether it overlaps or contains a box.",
    over=["inputs", "histories"],
    quant="every primitive of a grid, every history of assignments, every two-operator expression over the shapes, every tree up to a depth, every pattern of corner signs on small cell complexes",
    why="Values, bounds, trees and outlines are computed by different code from the same parts; they disagree only for particular nestings, sign patterns, or neighbouring cells of different size.",
    files=["mmcore/geom/implicit/implicit.py", "mmcore/geom/primitives.pyx", "mmcore/geom/implicit/dc/__init__.py", "mmcore/geom/implicit/tree/collapse2d.py", "mmcore/geom/implicit/tree/octree.py"],
    mechanism=[("Union3D, Intersection2D, Sub2D", "mmcore/geom/implicit/implicit.py"), ("Sphere, ImplicitCylinder, Tube", "mmcore/geom/primitives.pyx"), ("feature, faceProc, edgeProcH, edgeProcV", "mmcore/geom/implicit/dc/__init__.py"), ("build_tree2d, collapse2d", "mmcore/geom/implicit/tree/collapse2d.py")],
    technique="exhaustive enumeration of Boolean expressions, assignment histories, tree depths and corner sign patterns on the real code against a model of the region",
    note="Shapes smaller than a cell, Circle2D's operators (Curve's arithmetic) and meshing are not claimed.",
),
    dict(
    id="C25", title="Points and traces found on implicit curves and intersections lie on them",
    statement="The point found from a start on an implicit curve or surface lies on it to the tolerance, and is the closest point where the value is a signed distance; the frame found there is right-handed, orthonormal and has the normal of the surface. A point reported as common to two implicit surfaces lies on both, the Python and the compiled search report alike, every combination of the options returns the same point with the values and gradients there, failure is an error exactly when the quiet form reports it, and starts near a transversal intersection succeed. Tracing an implicit curve, or the intersection of two surfaces, gives points on it at most a step apart, beginning at the start and ending at the end (or closing), covering the curve once, or its first points up to a limit of points or box; iterating over the intersection of two spheres, cylinders or tubes gives each of its closed curves exactly once, and none when the surfaces do not meet. Intersections of circles lie on both and are refused exactly when there are none; points, parameters, tangent points and closest parameters of a circle agree; the raster search reports the nodes near the curve, moved onto it.",
    over=["inputs", "histories"],
    quant="every start on a lattice, every ordered pair of surfaces, every start, end, limit and step of the traces",
    why="Newton steps and marching have exits for parallel gradients, overshoot and closing that only particular starts, steps or positions reach.",
    files=["mmcore/numeric/algorithms/implicit_point.py", "mmcore/numeric/marching.py", "mmcore/numeric/intersection/implicit_implicit.py", "mmcore/geom/circle.py", "mmcore/numeric/calgorithms.pxd"],
    mechanism=[("curve_point, intersection_curve_point, surface_plane", "mmcore/numeric/algorithms/implicit_point.py"), ("marching_implicit_curve_points, marching_intersection_curve_points", "mmcore/numeric/marching.py"), ("ImplicitIntersectionCurveIterator", "mmcore/numeric/intersection/implicit_implicit.py"), ("circle_intersection2d, tangents_lines", "mmcore/geom/circle.py")],
    technique="exhaustive enumeration of starts, pairs of surfaces, steps, limits and positions on the real code against closed forms of the curves",
    note="Curves turning faster than a third of a step, parts of a curve nearer than a step, and lenses smaller than the cells of the tree are not claimed.",
),
    dict(
    id="C26", title="Closest points are closest, and point inversion finds the foot it starts near",
    statement="closest_point_on_curve returns a parameter inside the interval and the distance of its point, never above the distance of an end nor below the true least distance, and the least distance itself (to the tolerance along the curve) on every half unit of parameter over which the distance falls and then rises; many points, lists, plain callables and several processes give what single points give. closest_point_on_nurbs_curve finds the least distance over the whole curve (clamped, rational or periodic) to the tolerance, with its parameter and square; asked for a point on the curve it succeeds exactly when the distance is within the tolerance. local_closest_point_on_curve, point_inversion_curve, points_inversion_surface and foot_point started near a regular foot return it to the tolerance, point_inversion_surface a guess one step from it and no further than the start. closest_point_on_surface, its batch form and closest_points_on_surface find the closest point of a rectangle, inside its domain, for points above and beyond it. closest_point_on_line and closest_point_on_ray are exact projections; min_distance returns the least distance between any two points and a pair at that distance.",
    over=["inputs"],
    quant="every curve, patch and point set of finite families x grids of points, starts and tolerances",
    why="Searches that stop early, leave the interval or hand back the previous guess are right for most points; only ends, last pieces of the interval, loose tolerances and mixed batches show them; no test covers these modules.",
    files=["mmcore/numeric/closest_point.py", "mmcore/numeric/algorithms/point_inversion.py", "mmcore/numeric/divide_and_conquer.py", "mmcore/numeric/routines/_routines.pyx"],
    mechanism=[("closest_point_on_curve, local_closest_point_on_curve, closest_point_on_surface, foot_point, min_distance", "mmcore/numeric/closest_point.py"), ("point_inversion_curve, point_inversion_surface, points_inversion_surface", "mmcore/numeric/algorithms/point_inversion.py"), ("iterative_divide_and_conquer_min, divide_and_conquer_min_2d", "mmcore/numeric/divide_and_conquer.py")],
    technique="exhaustive enumeration of curves, patches, points, starts and tolerances on the real code against exactly isolated critical points of the distance polynomial",
    note="closest_point_on_nurbs_curve and closest_point_on_nurbs_surface (heuristics), surfaces other than rectangles for the closest-point searches, and starts far from the foot are not claimed.",
),
    dict(
    id="C27", title="Interval arithmetic gives exact ranges and encloses every expression",
    statement="For intervals (mmcore.numeric.interval) +, -, *, / with an interval or a number, powers, reciprocal and the operations in place give exactly the range of the operation over the operands: unbounded for a divisor around zero, ZeroDivisionError for a divisor ending at zero; hence every expression encloses its values. compare is TRUE exactly when every value is below, FALSE exactly when every value is above, else MAYBE, for intervals and numbers alike, and <, >, <=, >= follow from it. in, |, &, merge, subdivide, evaluate, float, tuples and arrays agree with the ends; no operation changes an operand, except that those in place change theirs.",
    over=["inputs", "histories"],
    quant="every pair of 28 intervals, every number, every expression of up to three operations and every sequence of three in-place operations",
    why="Signs decide: negative factors, powers around zero and divisors containing zero each need their own case, and an enclosure that fails is silent; no test touches the module.",
    files=["mmcore/numeric/interval/_interval.py"],
    mechanism=[("Interval, Comparison", "mmcore/numeric/interval/_interval.py")],
    technique="exhaustive enumeration of operands, expressions and operation sequences on the real code against exact rational ranges",
    note="Equality, disjoint intersections, ulp, the static max and min, a number on the left of -, * and /, and outward rounding are not claimed.",
),
    dict(
    id="C28", title="Power basis, Bernstein basis and Gauss map describe one surface",
    statement="The table of binomial coefficients is right up to 30. bezier_to_monomial and monomial_to_bezier convert between the two bases exactly and invert each other, both methods alike; values of a patch, of its power form and of a Monomial2D agree everywhere, also for weighted patches and after Monomial2D.from_bezier, from_nurbs, to_bezier and to_nurbs (surfaces with inner knots are refused). Derivatives and cross products of power forms are the polynomials they are named after, for equal and different sizes. compute_gauss_map and monomial_normal give Su x Sv at every parameter; the bounds of GaussMap.from_surf enclose the direction of every normal of the patch, and subdivide cuts the patch into its four quarters; is_bezier is true exactly without inner knots. No argument is changed.",
    over=["inputs"],
    quant="every unit net up to 5 x 5 (and pairs of unit nets up to 3 x 3), which by linearity stand for all nets; every small net of a family for the Gauss maps",
    why="One index or sign wrong in one coefficient shows only for nets of particular sizes and entries; the conversions feed loop detection in surface intersection and no test looks at them alone.",
    files=["mmcore/numeric/monomial.py", "mmcore/numeric/gauss_map.py", "mmcore/numeric/binom.pyx"],
    mechanism=[("bezier_to_monomial, monomial_to_bezier, cross_product_monomial, Monomial2D", "mmcore/numeric/monomial.py"), ("compute_gauss_map, GaussMap", "mmcore/numeric/gauss_map.py"), ("binomial_coefficient_py", "mmcore/numeric/binom.pyx")],
    technique="exhaustive enumeration of basis nets and pairs of them on the real code against exact rational polynomials",
    note="Weighted Gauss maps, normalize_polynomial, the separation of Gauss maps and detect_intersections are not claimed.",
),
    dict(
    id="C29", title="Polygons: areas, booleans, membership and hulls are the exact ones",
    statement="polygon_area (closed lists, arrays, integers, vectorized), Polygon.area and PolygonCollection.areas give the shoelace area, whatever the direction and position. is_point_in_polygon, its BVH form (from corners or a built tree), point_in_polygon (closed or not, with or without segments and box), Vertex.isInside, point_in_polygon of geom.features, and point_in_curve, point_in_parametric_curve and CurveOnSurface.point_inside for closed curves answer membership rightly for every point off the boundary, also at the height of corners and far from the origin. Polygon.union, intersection and difference, + and -, and clip_polygon give polygons, no two of their edges on each other, whose odd-even region is the union, intersection or difference of two simple polygons in general position, crossing, nested or apart, without changing the operands and after any earlier operations; clip does so for a convex counterclockwise clip polygon. convex_hull2d gives the strict corners of the hull counterclockwise from the lowest. refine drops exactly the collinear corners; corner angles, segment crossings, orientation and points_order are right. Inputs are not changed.",
    over=["inputs", "histories"],
    quant="every simple polygon with up to 5 (thorough 7) corners on a 3x3 grid and every point of a finer grid, pairs of them in every cell of their arrangement, every sequence of 3 operations on the same objects, every sequence of up to 4 hull points",
    why="Polygon code fails on one configuration in hundreds: a ray through a corner, a polygon inside another, a duplicate or collinear point, a second operation on used operands. No test of the repository exercises the module.",
    files=["mmcore/geom/polygon.py", "mmcore/geom/features.py", "mmcore/numeric/algorithms/point_in_curve.py", "mmcore/geom/vec/__init__.py"],
    mechanism=[("polygon_area, clip, Polygon, Vertex, point_in_polygon, is_point_in_polygon, polygon_build_bvh, convex_hull2d", "mmcore/geom/polygon.py"), ("point_in_parametric_curve", "mmcore/numeric/algorithms/point_in_curve.py"), ("points_order, intersects_segments", "mmcore/geom/features.py"), ("CurveOnSurface.point_inside, build_uv_bvh", "mmcore/geom/surfaces/__init__.py")],
    technique="exhaustive enumeration of polygons, pairs, points and operation sequences on the real code against exact membership in every cell of the arrangement",
    note="Degenerate contacts of boundaries, the operator |, PolygonCollection._union and the triangulation (needs a package that is not there) are not claimed.",
),
    dict(
    id="C30", title="Sweep line: all contacts of segments, with any skip-list heights",
    statement="find_intersection and SweepIntersector.findIntersections report for every segment of a list exactly the points strictly inside it where another segment crosses it, touches it with an end, or starts or ends overlapping it - each point once, ordered from the segment's first point to its second - keyed by the segment as given, whatever the order and direction of the segments and the random heights drawn for the skip list; zero-length segments are ignored, an empty list gives an empty result, the input is not changed. The skip list behind it (SkipList, SortSeq) shows after every sequence of insert, [] =, delete, del, insertAt, delItem, changeInf and reverseItems, with any node heights, the items a plain ordered list would: iteration, len, min, succ, pred, lookup, [] and locate (least key not below, else None). PriorityQueue yields least priorities first and the right size after every sequence of insertions and removals. Point ordering is lexicographic with equality for near points; orientation and intersectionOfLines are exact.",
    over=["inputs", "histories"],
    quant="every set of up to 3 (thorough 5) segments of a 3x3 grid, every sequence of random heights within bounds for 14 arrangements, every state of the sequence over 3 (5) keys and 3 heights with every operation, every sequence of 7 (8) queue operations",
    why="The heights of the skip list are random, so a test sees one run of many; deletions, reversals and overlaps fail only for particular heights and particular contacts. The repository has no test of it.",
    files=["mmcore/numeric/algorithms/sweep_line/sweep_intersector.py", "mmcore/numeric/algorithms/sweep_line/skiplist.py", "mmcore/numeric/algorithms/sweep_line/sortseq.py", "mmcore/numeric/algorithms/sweep_line/segment.py", "mmcore/numeric/algorithms/sweep_line/priority_queue.py", "mmcore/numeric/algorithms/sweep_line/point.py"],
    mechanism=[("SweepIntersector, find_intersection", "mmcore/numeric/algorithms/sweep_line/sweep_intersector.py"), ("SkipList", "mmcore/numeric/algorithms/sweep_line/skiplist.py"), ("SortSeq", "mmcore/numeric/algorithms/sweep_line/sortseq.py"), ("PriorityQueue", "mmcore/numeric/algorithms/sweep_line/priority_queue.py")],
    technique="explicit-state exploration of the sequence and queue with the random heights enumerated as nondeterminism, and exhaustive enumeration of segment sets on the real code against exact rational contacts",
    note="Contacts that the coordinates do not represent exactly (a touch within rounding) are not claimed.",
),
    dict(
    id="C31", title="Numeric helpers: sorts, vectors, grids, roots, primitives, lengths, areas",
    statement="quicksort sorts in place, argsort gives an order and unique the sorted distinct values, for arrays of any memory layout (contiguous, strided, reversed, columns), without touching other memory, results being independent of later calls; argsort and unique keep their input. The vector helpers (dot, cross, norm, norm_sq, unit, dist, projection_length, angle, angle3pt, dot3pt, perp2d, gram_schmidt, make_perpendicular, clamp, scale, add, rotate_matrix, orthonormalize, support_vector, curve_support_vector) give the exact values for plane and space vectors, integers or floats, single or as rows, and keep their arguments. uvs, point_grid_2d, cartesian_product, insert_in_tuple, remove_dim, split_dim, add_dim, split_by_parts, column_concat, divide_interval, find_similar, nd_min, nd_max and cubic_spline do as defined, arguments unchanged. bisection1d reports each root once, at the first sample at or after it, with the least value sampled; scalar_min_1d is within a step of the minimum, at the ends too; closest_local_minimum finds minima of convex functions. Prime is the antiderivative with the given translation and start, for numbers and arrays. parametric_arc_length, arc_height, curvature_based_step and surface_rect_area give the lengths and areas.",
    over=["inputs"],
    quant="every sequence of up to 6 (thorough 8) of 4 values in 4 memory layouts, every pair of grid vectors single and in rows, every small array shape and splitting, every choice of up to 3 roots, minima at every point of a grid and the ends, families of polynomials, curves and patches",
    why="These helpers carry the rest; they failed for strided memory, integers, rows, two dimensions, minima at an end, roots that are hit exactly. The repository tests none of them.",
    files=["mmcore/numeric/algorithms/quicksort.pyx", "mmcore/numeric/algorithms/_quicksort.c", "mmcore/numeric/algorithms/_unique.c", "mmcore/geom/vec/__init__.py", "mmcore/geom/vec/svm.py", "mmcore/numeric/routines/__init__.py", "mmcore/numeric/routines/_routines.pyx", "mmcore/numeric/bisection.py", "mmcore/numeric/prime.py", "mmcore/numeric/arc_length.py", "mmcore/numeric/algorithms/surface_area.py"],
    mechanism=[("quicksort, argsort, unique", "mmcore/numeric/algorithms/quicksort.pyx"), ("quickSort, argSort", "mmcore/numeric/algorithms/_quicksort.c"), ("uniqueSortedByRef", "mmcore/numeric/algorithms/_unique.c"), ("vector helpers", "mmcore/geom/vec/__init__.py"), ("array helpers", "mmcore/numeric/routines/__init__.py"), ("bisection1d, scalar_min_1d", "mmcore/numeric/bisection.py"), ("Prime", "mmcore/numeric/prime.py"), ("parametric_arc_length", "mmcore/numeric/arc_length.py"), ("surface_rect_area", "mmcore/numeric/algorithms/surface_area.py")],
    technique="exhaustive enumeration of sequences, memory layouts, vectors, shapes and functions on the real code against their definitions",
    note="bisection_2d, expand, split_by_shapes and the C matrix module (shadowed by an empty package and not importable) are not claimed.",
),
    dict(
    id="C32", title="Surface-surface intersection: every curve found, once, on both surfaces",
    statement="For two transversal clamped spline surfaces (crossing at more than 7 degrees, no two branches or near-tangency within a 48th of the size, tolerance 3e-4 to 3e-3 of the size, some coordinate projection - z up, y down or x up - keeping the orientation of the normals): find_boundary_intersections gives every point where the boundary of one crosses the other, once, with the parameters of that point on both surfaces; sort_boundary_intersections keeps each of them, in pairs and at most one single. surface_ppi gives one polyline per connected piece of the intersection and no other: its points lie on both surfaces within 17 tolerances, the returned parameters give them within 34, every point of the piece is within 64 tolerances over the sine of the crossing angle of the polyline, an open piece runs from end to end with terminator EDGE and a loop closes with terminator LOOP. ssx gives a space curve and a curve on either surface for each, on the surfaces and from end to end. None depends on the axes, position, size, parameter ranges, direction of the parameters, order of the two surfaces or a rational reparametrisation; surfaces that do not meet give nothing.",
    over=["inputs"],
    quant="biquadratic height fields with control heights 0 and 1 (every symmetry class, thorough all 512 at 3 levels and sizes) against a plane and curved surfaces, 256 pairs of bilinear patches at several offsets, cubic and multi-span nets, 12 pairs with up to four curves or loops under axis permutations, reflections, parameter ranges, flips, swaps, sizes 0.1 to 1000 and displacements",
    why="Intersecting surfaces is what the library is for; missing a branch, reporting it twice or leaving a surface corrupts every model built from it, and which branch is missed depends on the position. The repository tests two fixed pairs of surfaces.",
    files=["mmcore/numeric/gauss_map.py", "mmcore/numeric/intersection/ssx/surface_surface.py", "mmcore/numeric/intersection/ssx/boundary_intersection.py", "mmcore/numeric/intersection/ssx/_terminator.py", "mmcore/numeric/intersection/ssx/_ssi.pyx", "mmcore/numeric/intersection/csx/__init__.py", "mmcore/geom/curves/bspline.py", "mmcore/geom/curves/knot.py"],
    mechanism=[("detect_intersections, separate_gauss_maps", "mmcore/numeric/gauss_map.py"), ("surface_ppi, ssx, MarchingMethod", "mmcore/numeric/intersection/ssx/surface_surface.py"), ("find_boundary_intersections, sort_boundary_intersections", "mmcore/numeric/intersection/ssx/boundary_intersection.py"), ("Terminator", "mmcore/numeric/intersection/ssx/_terminator.py"), ("improve_uv", "mmcore/numeric/intersection/ssx/_ssi.pyx"), ("interpolate_nurbs_curve", "mmcore/geom/curves/bspline.py")],
    technique="exhaustive enumeration of surface pairs and frames on the real code against the components of the zero set of the height difference, traced on a grid",
    note="Surfaces whose normals have z < 0, y > 0 and x < 0 are marched with parameters that stay behind (improve_uv accepts positive determinants only); the stored outcomes of tests/test_nurbs_ssx.py contain such steps, so this is recorded, not repaired. Coincident and tangential pairs are not claimed.",
),
    dict(
    id="C33", title="API vectors, points, matrices and boxes agree with plain models in any history",
    statement="Vector2D/3D and Point2D/3D of mmcore.api: after any sequence of in-place and plain arithmetic with vectors, points, numbers and arrays, add, subtract, scale, normalize, assignments, transform, copies and conversions, coordinates, length, as_array, dot, cross, angle_to, is_parallel, is_perpendicular (whatever the lengths) and equality (also with other things) are those of the exact vector; in-place operations keep the object. Matrix2D/3D: after any sequence of set_*, set_cell, invert, transform, translation, copies and products, the cells, determinant, get_as_coordinate_system, translation and the images of vectors and points are those of the exact matrix (columns are the axes and the translation; A.transform(B) and A @ B are the product AB); a rotation is by its angle (2D radians, 3D degrees) about its axis of any length and leaves its origin in place, set_to_rotate_to takes one direction to the other (opposite ones about the given axis), set_to_align_coordinate_systems takes one frame to the other. BoundingBox2D/3D: expand, combine, union, intersection (None when disjoint), intersects, overlap, contains, sizes, area, volume, centroid, to_vertices, casts and every way to make one are those of the exact box, touching included. No operation changes an operand, and copies and results share nothing with their source.",
    over=["inputs", "histories"],
    quant="every history of up to 3 operations (thorough 4) on vectors and boxes and 2 (3) on matrices with every query after it; every pair of grid vectors in 4 lengths, of directions rotated onto each other, of frames aligned; every pair of grid boxes with every half-step point",
    why="These objects are what the API passes around; a box with swapped corners, a transposed frame or an alias that changes a caller's point corrupts every result built on it. No repository test touches them.",
    files=["mmcore/api/_base_vectors.py", "mmcore/api/vectors.py", "mmcore/api/bbox.py"],
    mechanism=[("BaseVector, BaseMatrix", "mmcore/api/_base_vectors.py"), ("Vector2D, Vector3D, Point2D, Point3D, Matrix2D, Matrix3D", "mmcore/api/vectors.py"), ("BoundingBox2D, BoundingBox3D", "mmcore/api/bbox.py")],
    technique="exhaustive enumeration of operation sequences on the real objects against an exact model, with monitors for aliased objects",
    note="Line, circle, arc and surface classes of mmcore.api are mostly unfinished stubs and are not claimed.",
),
    dict(
    id="C34", title="B-rep histories: equal parts once, indices true, edges end at their vertices",
    statement="BRepGeometry.add_point, add_curve, add_surface and add append a representation of the given object with its place as index, or with check give back the first equal one: points equal to 8 decimals as arrays, tuples or lists, whatever the sign of zeros; curves and surfaces with equal data. BRep.add_vertex gives back the first vertex of an equal representation, add_edge the first edge with an equal curve between the same two end points in either order (an edge from a vertex to itself only for the same), add_face the first face with an equal surface, the same outer loop and the same holes in any order, add_shell and add_solid the first with the same parts in any order; otherwise, and always with check=False, a new one that holds what was given is appended; add_loop appends; nothing else changes. The end parameters of an edge are parameters of its curve at its vertices, check=True raises ValueError naming the starting or ending vertex (or both) that is off the curve; tessellate of an edge is 100 points of the curve at even parameters from its first vertex to its second, of a loop those of its edges in turn. nurbs_surf_to_brep gives one face with the surface and a loop of edges for the four sides, whose vertices share equal corners among the points. Sparce is a symmetric table whose rows list every key.",
    over=["histories", "inputs"],
    quant="every history of up to 3 (thorough 4) additions of geometry, 4 (5) of vertices and edges, 3 (4) of faces, 2 (3) of shells and solids over small sets of equal and differing parts; every pair of parameters of a family of curves, vertices on and off; a family of surfaces",
    why="A model in which two different points are taken for one, or one for two, has wrong topology although each call looks right; it takes a particular order of additions or values (negative zeros, equal hashes). No repository test covers it.",
    files=["mmcore/topo/brep/__init__.py", "mmcore/numeric/closest_point.py"],
    mechanism=[("GeometryRepresentation, BRepGeometry, BRep, get_edge_ends_parameters, nurbs_surf_to_brep, Sparce", "mmcore/topo/brep/__init__.py"), ("closest_point_on_nurbs_curve", "mmcore/numeric/closest_point.py")],
    technique="exhaustive enumeration of operation sequences on the real containers against a model of lists",
    note="",
),
    dict(
    id="C35", title="Triangulations fill exactly the given region, tessellations the trimmed surface",
    statement="triangulate(vertices, opts) gives counter-clockwise triangles that meet edge to edge and fill exactly the convex hull, use every distinct vertex, keep the input vertices first and in order, with no vertex inside a circumcircle, under every algorithm switch (F up to rounding), as delaunay does; edges, markers and neighbors describe those triangles; convex_hull lists the hull edges and voronoi corners, edges and rays between their closest sites. With p and segments it fills exactly the outline (pc: the hull), every segment is a union of mesh edges, inner edges not on segments are locally Delaunay; a limits areas, q keeps angles of 20 degrees (outlines without angles below 60), D makes all edges Delaunay, A marks regions, r refines a result of triangulate within those. prepare_args gives outlines minus holes for open or closed loops in either direction. Points on one line, fewer than three, or not finite raise ValueError. tessellate_surface fills exactly the parameter rectangle, with the side and inner grid points of the counts asked for (both 25, or the same as the other one, when not given), positions on the surface and, without density, every trim followed by mesh edges through its boundary_count samples, with it through its ends; tessellate_curve_on_surface fills exactly the polygon of a closed trim, with the grid points inside. loads and load read back what mesh files hold.",
    over=["inputs"],
    quant="every set of up to 6 (thorough all) points of a 4x3 grid in 4 placements and several orders, with repeats; every simple polygon of up to 6 (7) vertices on a 3x3 grid with all option sets, regions and holes; every pair and many (all) triples of segments; counts, trims and surfaces as products; every file layout",
    why="A hole that is filled, a trim that the mesh cuts across, a triangle that overlaps another or a crash of the interpreter on a degenerate input appears only for particular positions (cocircular, collinear, repeated, concave). No repository test covers it.",
    files=["mmcore/topo/mesh/tess.py", "mmcore/topo/mesh/triangle/tri.py", "mmcore/topo/mesh/triangle/core.pyx", "mmcore/topo/mesh/triangle/data.py", "mmcore/topo/mesh/triangle-c/triangle.c"],
    mechanism=[("tessellate_surface, tessellate_curve_on_surface, as_polygons", "mmcore/topo/mesh/tess.py"), ("triangulate, delaunay, convex_hull, voronoi, prepare_args", "mmcore/topo/mesh/triangle/tri.py"), ("triang", "mmcore/topo/mesh/triangle/core.pyx"), ("loads, load", "mmcore/topo/mesh/triangle/data.py"), ("triangulate", "mmcore/topo/mesh/triangle-c/triangle.c")],
    technique="exhaustive enumeration of point sets, outlines, holes, segments and trims on the real code, each mesh judged by exact integer geometry",
    note="",
),
    dict(
    id="C36", title="A NURBSpline and the spline kernels give the defining point and derivatives",
    statement="NURBSpline(control_points, degree, knots, periodic), from 2, 3 (weights one) or 4 columns, arrays or lists of floats or integers, answers evaluate, evaluate_multi, calls on scalars, lists and tables, evaluate4d, start, end and points with the point of the rational B-spline formula; derivatives1, derivatives2, derivative and second_derivative with its derivatives (weights included, from the right at a knot, from the left at the end), tangent, curvature, normal and plane_at with the frame of those; derivative_control_points and greville_abscissae as defined. Without knots they are the default clamped ones. Beyond the interval the first or the last polynomial piece continues; a periodic spline (periodic=True or make_periodic) is closed and repeats with its period, make_open gives back the open spline. Through every history of new control points, weights, knots, degree, set, make_periodic, make_open, copies, pickles and changes to returned or passed arrays it answers, also with interval and evaluate_length, like a spline built afresh from the current data, and copies are independent. split and nurbs_split cut it into two parts of the same curve, weights included. create_circle and Circle are the circle of the origin, radius and plane given over an interval of 2 pi. The kernels of bspline_utils and curve_utils (basis functions and derivatives, curve points in homogeneous coordinates, calcNURBSDerivatives with nd+1 rows, both surface points), bspline_first and deboor agree with the same formula, at inner knots too.",
    over=["inputs", "histories"],
    quant="every clamped knot vector with up to 2-3 inner knots of every multiplicity, unclamped and periodic ones, degrees 1-5, weight patterns, all knots, span points and floats next to knots; every sequence of 2 (thorough 3) of 14 edits with a query after each; every split",
    why="A dropped weight, an unwrapped parameter, a stale cache or interval after an edit, or a basis function counted twice shows only for rational, periodic, unclamped or edited splines and at knots. The repository tests NURBSpline on one periodic example.",
    files=["mmcore/geom/curves/bspline.py", "mmcore/geom/curves/_nurbs.pyx", "mmcore/geom/parametric.pyx", "mmcore/geom/curves/knot.py", "mmcore/geom/curves/bspline_utils.py", "mmcore/geom/curves/curve_utils.py", "mmcore/geom/curves/bspline_first.py", "mmcore/geom/curves/deboor.pyx", "mmcore/geom/curves/__init__.py"],
    mechanism=[("find_span, curve_point, curve_derivs_alg1, curve_derivs_alg2, NURBSpline", "mmcore/geom/curves/_nurbs.pyx"), ("NURBSpline, create_circle", "mmcore/geom/curves/bspline.py"), ("nurbs_split", "mmcore/geom/curves/knot.py"), ("calc_basis_functions, calcNURBSDerivatives, calcSurfacePoint", "mmcore/geom/curves/bspline_utils.py"), ("deboor, evaluate_nurbs, evaluate_nurbs_multi", "mmcore/geom/curves/deboor.pyx"), ("NURBSCurve", "mmcore/geom/curves/bspline_first.py")],
    technique="exhaustive enumeration of splines and of all edit histories to a depth on the real code, compared with exact rational evaluation",
    note="",
),
    dict(
    id="C37", title="Lines, planes, circles, arcs and NURBS curves of mmcore.api are what they say",
    statement="Line3D and InfiniteLine3D evaluate to origin + t * direction, at scalars, arrays and evaluate_param, report origin, direction, end points and get_data accordingly, is_colinear is true exactly for lines on one line, line_line_intersection answers the parameters of both lines and False for parallel ones, intersect_with_line, and intersect_with_curve of a Line3D, answer the crossing within segments and nothing otherwise. A Plane from origin and normal, directions, three points, array or cast is a right-handed orthonormal frame; evaluate and evaluate_inverse, as_array, is_parallel_plane, is_perpendicular_plane, is_parallel_line, is_perpendicular_line, is_coplanar, intersect_with_plane (a line on both) and intersect_with_line agree with exact geometry, and a new origin, normal or pair of directions gives the frame of the new data. Circle2D, Circle3D (by center, three points, normal, plane) and Arc3D (by center, reference and angles, or three points, passing the second between the others) evaluate to the circle of their center, normal, radius and reference vector over their angles, and return them from their properties and get_data. NurbsCurve3D gives the points, derivatives, tangents and get_data of the rational B-spline of its points, weights, degree and knots, from its constructor, create_rational, arrays and set. Evaluators of segments, circles, arcs and NURBS curves give points, ends, extents, first and second derivatives, tangents, curvatures and strokes, at one or several parameters. All of it holds after every history of changes by setters, set, set_xy_directions, set_axes and copy; copies, and circles made from the same point, are independent.",
    over=["inputs", "histories"],
    quant="every pair of 78 segments and lines with 5-12 others; 78 planes with 6 others and with 104 lines; circles of 26 normals; every triple of 8-12 points; NURBS curves of degree 1-3 in 3 weight patterns; every history of 2-4 of 4-9 changes",
    why="A frame that is not turned with its normal, a shared point, a sign of a parameter or a stale cached curve shows only for certain directions, or after an edit or a copy. The repository tests touch none of these classes.",
    files=["mmcore/api/curves.py", "mmcore/api/plane.py", "mmcore/api/base.py", "mmcore/api/vectors.py"],
    mechanism=[("Line3D, InfiniteLine3D, line_line_intersection, Circle2D, Circle3D, Arc3D, NurbsCurve3D", "mmcore/api/curves.py"), ("Plane", "mmcore/api/plane.py"), ("CurveEvaluator3D", "mmcore/api/curves.py")],
    technique="exhaustive enumeration of lattice objects, pairs and change histories to a depth on the real code, compared with exact geometry",
    note="",
),
]
