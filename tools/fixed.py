"""Writes the "fixed:" lines of known_findings.txt from the fix commits of /repo (property per commit below)."""
import subprocess

MAP = {
    "C01": ["find_span must not", "periodic curves wrapped", "the interval of a periodic"],
    "C02": ["NURBSCurve.normal wrote", "finite-difference curve", "derivatives of rational curves", "derivative_control_points"],
    "C03": ["reverse_curve", "NURBSCurve.flip", "trim took", "decompose_curve failed", "splitting or inserting", "knot insertion changed the shape"],
    "C04": ["knot removal measured", "knot_refinement", "knot_removal", "knot_insertion always", "knots equal up to"],
    "C05": ["degree elevation", "join_two", "ruled surfaces of rational"],
    "C06": ["NURBSCurve.evaluate handed", "a copied NURBSCurve", "curves built from", "assigning knots", "changing the degree left stale", "NURBSCurve.set", "insert_knot left", "is_periodic only",
            "make_open", "assigning NURBSCurve.control_points", "pickling a periodic"],
    "C07": ["a serialized curve", "deserialize ", "STEP numbers", "the edge loop", "rational curves and surfaces lost"],
    "C08": ["u derivatives of ruled", "second derivatives of a surface", "plane_at of a surface", "calling a curve with one", "surface_deriv_cpts", "the interval of an unclamped", "surface derivatives at the end"],
    "C09": ["isocurves of rational", "subdivide_surface with", "decompose_surface ignored"],
    "C10": ["hashing or comparing", "surfaces built from", "changing the degree of a surface", "the degree of a surface was"],
    "C11": ["bbox of a rational", "aabb ", "aabb_", "ray_aabb", "BoundingBox"],
    "C12": ["building a BVH", "find_closest", "bvh_", "a segment is tested", "mesh_bvh"],
    "C13": ["iterating an empty CDLL", "CDLL."],
    "C14": ["deleting an AVL", "inserting an existing key", "AVL.", "indexing an AVL"],
    "C15": ["building a k-d", "k-d tree", "inserting into an R-tree", "splitting an R-tree"],
    "C16": ["GJK misses", "the Python GJK", "points within the tolerance of"],
    "C17": ["spherical sep", "curve-surface intersection", "csx of"],
    "C18": ["curve-curve intersection", "the intersections of two implicit"],
    "C19": ["Boolean operations on curves"],
    "C20": ["newton_method2 solves", "the numerical Hessian", "numerical gradients leave", "FDM.dzdx divides"],
    "C21": ["the array products of vectors", "gram_schmidt uses every", "invert_jacobian inverts", "courtesan_to_cylindrical", "the closest points on rays", "plane intersections choose",
            "planes_planes_intersect", "plane_plane_intersection accepts", "plane_from_normal", "the origin given by plane_from_eq", "plane_ray_intersection accepts"],
    "C22": ["the derivatives of parametric surfaces", "plane_on_curve and normal_at", "solve3x2 leaves", "fundamental_forms does not import", "principal curvatures and directions", "points of a surface are classified",
            "distances on a surface", "the curvature of an intersection curve", "evaluate_curvature_vec evaluates"],
    "C23": ["the isolines of a surface", "the differences of a Curve", "TrimmedCurve has", "OffsetCurve.offset returns", "evaluate_parameter_at_length counts", "the derivatives, lengths and circles of a reparametrized",
            "an OffsetCurve has the interval", "evaluate_parameter_from_length solves", "the normal of a curve on a surface", "the y axis of Surface.plane_at", "ruled surfaces of Python curves",
            "Coons.evaluate hands", "Surface.isocurve without limits", "the limits of Surface.isocurve"],
    "C24": ["a Cylinder along the negative", "implicit shapes evaluate many", "Intersection2D has bounds", "the difference of implicit shapes", "trees of implicit 2D", "trees of the sphere", "the index of a dual contouring", "the dual contouring circle", "dual contouring joins", "astuple of the implicit", "the implicit primitives accept", "the dual contouring feature",
            "a Circle2D has bounds"],
    "C25": ["intersection_curve_point does not take", "implicit surfaces that do not meet", "the parameter of the point of a circle", "tangents_lines", "the intersections of tangent circles", "intersection_curve_point returns", "surface_plane takes", "raster_algorithm_2d", "marching_intersection_curve"],
    "C26": ["the closest point of a NURBS curve was often", "the last piece of a divided", "local_closest_point", "foot_point", "point_inversion", "points_inversion", "divide_and_conquer_min_2d_vectorized", "closest_point_on_surface returned"],
    "C27": ["the difference of two intervals", "an interval times", "the quotient by an interval", "even powers of an interval", "an interval compared", "Interval.from_tuple"],
    "C29": ["the area of a polygon", "clipping a polygon", "the inside test of polygon", "boolean operations on polygons", "refining a polygon", "a point in the lower corner", "point in polygon", "the outline tree", "the test of points against closed", "the point in polygon test", "the angle of parallel", "the dot product of the vector helpers"],
    "C30": ["removing a key of the sweep", "the sweep line missed"],
    "C35": ["a segment at a duplicate vertex", "a mesh with neighbors", "a triangulation of points on one line", "closed loops and concave holes", "a trimmed surface was tessellated", "a surface could not be tessellated", "neighbors, edges, comments", "an inner point of a tessellation"],
    "C36": ["a periodic NURBSpline was wrong", "a NURBSpline with an unclamped", "the derivatives of a rational NURBSpline", "NURBSpline.", "a NURBSpline kept", "a change of a returned point", "a change of the degree of a NURBSpline", "copies and pickles of a periodic NURBSpline", "lengths and the tree of a NURBSpline", "NURBSpline refused", "planar points of a NURBSpline", "a split of a rational NURBSpline", "calc_basis_functions", "calcSurfacePoint", "calc_bspline_derivatives", "deboor counted", "evaluate_nurbs_multi", "bspline_first", "the interval of bspline_first", "Circle covered", "new control points of a NURBSpline", "calcNURBSDerivatives"],
    "C37": ["mmcore.api.plane could not", "Plane.cast failed", "Plane.set_xy_directions", "a new origin did not move a Plane", "crossing planes were", "the intersection of planes always", "lines could not be created", "the points a Plane gives", "lines were intersected in the plane", "intersect_with_curve failed", "is_colinear was", "the origin of a Line3D", "default infinite lines", "Circle2D was drawn", "a circle through three points", "Circle3D.create_by_center", "circles shared the point", "the axes of an Arc3D", "an arc through three points", "Circle3D.set reported", "the second derivatives of curve evaluators", "the curvatures of curve evaluators", "curve evaluators refused", "NurbsCurve3D could not", "NurbsCurve3D answered", "NurbsCurve3D.set failed", "NurbsCurve3D.get_data"],
    "C33": ["in-place arithmetic replaced", "comparing a vector with anything", "the angle between vectors was only", "whether vectors are parallel", "the length of a vector in space", "a matrix made from given cells", "vectors could not be transformed by", "the matrix of a coordinate system", "a matrix could not be set to align", "a rotation of the plane moved", "a rotation of space moved", "vectors which are not parallel could", "a bounding box made from its minimum", "a bounding box in space contained", "the intersection of bounding boxes of the plane"],
    "C34": ["points with zeros of other sign", "the parameters of the ends of an edge", "an edge from a vertex to itself", "faces were taken for each other", "shells and solids could not", "the B-rep of a surface held"],
    "C32": ["the search for loops of an intersection never", "intersections of surfaces in planes", "steps along an intersection of surfaces", "start points of other curves near", "the parameters of closed intersection", "interpolation failed where repeated"],
    "C31": ["norm and unit took", "the cross product of the vector helpers", "orthonormalize", "clamp took", "unique reallocated", "nd_min and nd_max", "divide_interval", "bisection1d", "scalar_min_1d", "the antiderivative of an array", "parametric_arc_length", "the sorts took", "the perpendicular vectors of arrays", "the cross product of plane vectors"],
    "C28": ["gauss_map could not", "is_bezier", "the cross product of monomial", "monomial forms and"],
}

log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
lines, left = [], []
for l in log:
    h, msg = l.split(" ", 1)
    if not msg.startswith("fix: "):
        continue
    pid = [p for p, ks in MAP.items() for k in ks if msg[5:].startswith(k)]
    if not pid:
        left.append(l)
    lines.append(f"fixed: property={pid[-1] if pid else '?'} {h} {msg[5:]}")
p = "/verif/known_findings.txt"
keep = [l for l in open(p).read().splitlines() if not l.startswith("fixed:")]
open(p, "w").write("\n".join(keep + sorted(lines)) + "\n")
print(len(lines), "fixed,", "unassigned:", left)
