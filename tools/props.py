"""Single source of properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md (see make_docs.py)."""
CS = "starshaped_hull/cluster_and_starify.py"
SHF = "starshaped_hull/starshaped_hull.py"
OB, EL, PO, SP, SC, SO, MM = ("obstacles/%s.py" % n for n in (
    "obstacle", "ellipse", "polygon", "starshaped_polygon", "starshaped_primitive_combination", "starshaped_obstacle",
    "motion_model"))
CG, MI = "utils/cg.py", "utils/misc.py"
EX, MC, FE = "exploration", "model_checking", "fault_enumeration"

P = []


def prop(id, title, statement, over, text, why, files, mech, level, design, note, observe=(), tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level,
                  design=design, note=note, observe=list(observe), tech=tech))


prop("C01", "Returned clusters partition and cover the obstacles and do not overlap",
     "Every input obstacle belongs to exactly one returned cluster. Unless the result is flagged incomplete, every obstacle lies "
     "inside the cluster obstacle of its cluster and no two cluster obstacles overlap. An incomplete result is exactly the list "
     "of the single obstacles.",
     ["inputs", "configurations"], "all obstacle sets (any mix of convex, starshaped and general polygons and ellipses), poses, free robot and "
     "goal positions, and option combinations", "The tests run two hand-made scenes and look at the exit flag only; "
     "disjointness and containment quantify over all scenes, including those that need several merging rounds.",
     [CS, SHF], [("merging of intersecting clusters until none intersect", CS + ":get_intersection_clusters"),
                 ("hull of a cluster", SHF + ":kernel_starshaped_hull")], EX,
     "The real cluster_and_starify is run on every scene of a finite alphabet: words of length 1-3 (4 thorough) over 9 obstacle "
     "shapes x grids of relative positions and rotations x all free (robot, goal) pairs of a 6x4 set x options. Monitors: "
     "partition of ids, pairwise zero overlap area, area and boundary-probe coverage.",
     "Holds on every enumerated scene. Trusts shapely's area predicates; disjointness is that of the polygon representations.",
     ["cluster_and_starify(...)[0]"])
prop("C02", "Returned cluster obstacles are starshaped about their kernel and reference",
     "Each returned cluster obstacle is a single region without holes that is starshaped with respect to its reference point and "
     "to every one of its kernel points, all of which lie in it. The reference point is the centroid of the kernel points.",
     ["inputs", "configurations"], "all scenes, free robot/goal positions and options",
     "No test looks at the geometry of a result; visibility of every boundary point from the kernel is a for-all statement.",
     [CS, SHF, SC], [("kernel point selection", CS + ":compute_kernel_points"), ("starshaped hull", SHF + ":polygon_kernel_starshaped_hull")], EX,
     "Same scene space as C01. The fan from each kernel point to every boundary edge of the resulting polygon is computed "
     "directly and its excess outside the polygon (0.02 tolerance) must be empty.",
     "Holds on every enumerated scene up to a 0.02 boundary tolerance.", ["cluster_obstacle.polygon()", "cluster_obstacle.xr()", "kernel_points"])
prop("C03", "Robot and goal are never swallowed by a cluster",
     "If robot and goal are exterior to all obstacles, they are exterior to every returned cluster obstacle, unless the result is "
     "flagged incomplete.",
     ["inputs", "configurations"], "all scenes, free robot/goal positions and options",
     "Tests check the exit flag on two scenes; the guarantee is what a motion planner relies on for every scene.",
     [CS, SHF], [("admissible kernel of robot and goal", SHF + ":admissible_kernel"), ("intersection of the cones", CG + ":Cone.list_intersection")], EX,
     "Same scene space as C01 with robot/goal positions including pockets and narrow gaps; both the point-location query of the "
     "cluster obstacle and its polygon are consulted.",
     "Holds on every enumerated scene; robot/goal keep a 0.02 margin from obstacles.", ["cluster_obstacle.point_location"])
prop("C04", "Time and iteration limits end the computation with a well-formed, honest result",
     "The clustering always terminates, with a result of the documented arity, whatever the moment at which the time limit "
     "expires and whatever the iteration limit. A result cut short before the clusters are disjoint is flagged incomplete and "
     "consists of the single obstacles; one cut short during convexification is flagged as such and satisfies all guarantees of "
     "a complete result; later expiry never gives a less complete result.",
     ["fault_sequences", "configurations", "inputs"], "every clock read at which the deadline can expire, every iteration limit, all option combinations and scenes",
     "Time-outs depend on wall-clock timing; the tests never trigger one, and cannot place it at a chosen clock read.",
     [CS, MI], [("deadline tests in the loops", CS + ":cluster_and_starify"), ("clock", MI + ":tic/toc")], FE,
     "The clock is replaced by a virtual one that jumps past the deadline at its k-th read; for each scene every k from the "
     "first read to the last read of the undisturbed run is executed on the real code, and every iteration limit from 0 to the number "
     "needed + 1, for all 16 option combinations. Oracle: arity, flags and results against the undisturbed run; monotonicity in k.",
     "Every expiry point of each enumerated scene is covered; the clock is read through the time module only.",
     ["flag", "n_iter", "result arity"], "exhaustive deadline-expiry (fault) enumeration under a virtual clock on the real code")
prop("C05", "Feeding back previous clusters is safe and stable",
     "Passing the clusters of an earlier step never breaks the guarantees of the result, whatever the earlier step was (complete, "
     "cut short, other obstacle set, other robot position). A cluster of the same obstacles keeps its identity across steps, and "
     "in an unchanged scene clusters and their geometry are unchanged from the second step on, whatever the order of the obstacle list.",
     ["histories", "inputs"], "all sequences of scene changes and calls up to a depth", "State is carried between calls through the previous clusters; "
     "tests make at most one such call.",
     [CS], [("reuse of kernel points", CS + ":compute_kernel_points"), ("lookup of the previous cluster", CS + ":extract_cluster")], MC,
     "Explicit-state exploration: all sequences of moves (robot moves, obstacle moves/appears/disappears, deadline hit, unchanged) up to depth 3 (4) "
     "on real objects; every prefix's result is judged by the C01-C03 monitors, and identity/fixpoint laws are checked between steps.",
     "All move sequences up to the depth on the listed scenes.", ["cluster_obstacle.id()", "kernel_points"])
prop("C06", "Convexification is sound and maximal",
     "With convexification requested, each cluster obstacle is either unchanged or replaced by exactly its convex hull, keeping its identity and "
     "reference point; robot and goal stay outside and clusters stay disjoint. A cluster is left non-convex only if its convex "
     "hull contains the robot or the goal or touches another returned cluster.",
     ["inputs"], "all scenes and free robot/goal positions", "The tests never inspect the convexified geometry; maximality is relative to all other clusters of the scene.",
     [CS], [("convexification pass", CS + ":cluster_and_starify (make convex)")], EX,
     "Every scene of the alphabet is solved with and without the option; the convexified result is compared with an independently "
     "computed convex hull of the plain result and the two admissibility conditions.",
     "Holds on every enumerated scene. Maximality is stated w.r.t. a sequential pass: a hull blocked by an earlier convexified "
     "cluster counts as touching.", ["cluster_obstacle.polygon()"])
prop("C07", "Clustering follows its definition step by step and solves the solvable scenes",
     "Each step of the reported history merges exactly the groups of clusters connected by intersection in the previous step, until none "
     "intersect, and the number of steps is the one reported. Scenes whose robot and goal lie outside the convex "
     "hull of everything are solved completely, and convex obstacles that are pairwise disjoint are returned unchanged. "
     "Excluding other obstacles from kernels and a large workspace never turn a solvable scene unsolvable.",
     ["inputs", "configurations"], "all scenes, free robot/goal positions and options", "Two scenes are tested; completeness and minimality of merging quantify over all scenes.",
     [CS], [("iteration", CS + ":cluster_and_starify"), ("intersection graph", CS + ":get_intersection_clusters")], EX,
     "Every scene with the history option; an independent union-find over polygon intersections of iteration k predicts the partition of "
     "iteration k+1; solvability is derived from the convex hull of the scene.",
     "Holds on every enumerated scene.", ["history", "flag", "n_iter"])
prop("C08", "The admissible kernel is exactly the set that keeps a point visible",
     "For a point outside an obstacle, a kernel candidate is reported admissible exactly if the ray from the point directed away "
     "from the candidate does not enter the obstacle; for interior or enclosed points there is none. For a set of obstacles and "
     "two points the admissible region is the intersection of the individual ones.",
     ["inputs"], "all obstacles, poses, exterior points and candidate kernel points", "Tests have no oracle for the cones; unbounded cones and wide (>180 degree) ones need specific configurations.",
     [SHF, CG, PO, EL], [("cone between the tangents", SHF + ":admissible_kernel"), ("tangent points", PO + ":tangent_points"), ("cone membership and intersection", CG + ":Cone")], EX,
     "All lattice polygons (3x3, plus larger ones thorough), named non-convex polygons and ellipses x 49 apex points x 84 candidates "
     "(also far away) against a direct ray/segment intersection test; then all pairs/triples of scene obstacles.",
     "Exact up to 1e-6 around tangents.", ["admissible_kernel", "Cone.point_in_cone", "Cone.intersection"])
prop("C09", "The starshaped hull is the smallest starshaped superset for the given kernel",
     "The obstacles united with the returned hull form the smallest set that contains them and is starshaped with respect to all given kernel "
     "points (in general position), whether the kernel lies inside, outside or across the boundary of the obstacles.",
     ["inputs"], "all obstacles, obstacle lists, poses and kernels of one or three points", "Tests have no oracle for hulls; the construction has many configuration-dependent branches.",
     [SHF], [("hull of a polygon", SHF + ":polygon_kernel_starshaped_hull"), ("hull of a convex obstacle", SHF + ":convex_kernel_starshaped_hull")], EX,
     "Lattice/named polygons and ellipses x poses x grids of one-point and triangular kernels, and lists of 2-3 obstacles; oracle: union of "
     "conv(kernel + boundary edge) over all edges.",
     "Area agreement up to 1e-3 relative. A few kernels that straddle the boundary give a larger set than necessary (known findings).",
     ["kernel_starshaped_hull"])
prop("C10", "Cones are exact sets and cone operations are set operations",
     "Membership, polygonal representation, intersection and intersection of lists of cones agree with the cone defined by apex and "
     "bounding directions, also for wide, degenerate and far-reaching cones and cones sharing a ray or an apex.",
     ["inputs"], "all apexes and direction pairs", "The cone code is not tested; unbounded sets and half-plane cases need a definition-based oracle.",
     [CG], [("cone", CG + ":Cone")], EX,
     "All direction pairs of a finite set of angles x apexes x probe points against the angular definition; all pairs (and same-apex lists) of cones against set intersection.",
     "Exact away from the bounding rays (1e-6).", ["Cone"])
prop("C11", "Intersection clustering computes connected components",
     "Grouping clusters by intersection yields exactly the connected components of the intersection relation; every obstacle stays in exactly one "
     "group, and if nothing intersects the clusters are returned as they are.",
     ["inputs"], "all intersection graphs over n clusters in every order, also for clusters that already contain several obstacles",
     "The tests use a couple of graphs; the in-place merging of index lists is order-dependent.",
     [CS], [("merging of index lists", CS + ":get_intersection_clusters")], MC,
     "Model: all labelled graphs on up to 6 (7 thorough) nodes, realised as clusters of real shapely regions (one tile per edge); the real function is executed on "
     "every graph and compared with union-find, and re-run on its own result (fixpoint).",
     "Every labelled graph up to the bound: complete for n<=6 (quick) and n<=7 (thorough).", ["get_intersection_clusters"],
     "explicit enumeration of all labelled intersection graphs, executed on the implementation")
prop("C12", "Obstacle answers depend only on the current state, not on the history of calls",
     "After any sequence of queries, movements, reference point changes and copies, every query answers as a freshly built obstacle "
     "with the same shape, pose and reference point would: cached polygons and kernels never go stale, and neither queries nor caller-owned arrays change an obstacle.",
     ["histories"], "all sequences of operations up to a depth for every obstacle type", "Tests query freshly built objects; stale caches need particular interleavings of queries and movements.",
     [OB, EL, PO, SP, SO, SC], [("pose-keyed polygon cache", OB + ":polygon"), ("kernel cache", SO + ":kernel"), ("reference point", SO + ":set_xr")], MC,
     "Explicit-state exploration: state = (pose, reference point, caches); all event sequences over an alphabet of 16 events up to depth 3 (4) per obstacle "
     "type; the reference model is the value semantics (shape, pose, xr) and each trace is replayed on the real object and compared with a fresh object on a full query vector.",
     "All histories up to the depth bound.", ["polygon, kernel, xr, point_location, tangent_points, boundary_mapping, normal, dilated_obstacle, copy"],
     "explicit-state exploration of operation sequences with a value-semantics reference model replayed on the implementation")
prop("C13", "Answers are equivariant under the obstacle's pose and consistent between frames",
     "Moving an obstacle and the query point by the same rigid motion moves the answer by it, and asking in obstacle coordinates gives the "
     "answer of the global query transformed, for every query and every combination of input and output frames.",
     ["inputs", "configurations"], "all shapes, poses, query points and frame combinations", "Tests sample random poses of one shape without frames; each query has its own frame handling.",
     [OB, EL, PO, SP, SO, SC], [("frame transformations", OB + ":transform"), ("per-query frame conversion", EL + ", " + PO + ", " + SP)], EX,
     "All shapes x poses x query points x all (input, output) frame pairs for every query, compared with the untransformed identity-pose answer.",
     "Exact up to 1e-6 on the enumerated space.", ["all queries with input_frame/output_frame"])
prop("C14", "Point location is exact",
     "Every point is reported interior, on the boundary or exterior according to the set the obstacle represents, for every obstacle type, "
     "pose and vertex order.",
     ["inputs"], "all shapes, presentations (orientation, starting vertex, collinear vertices), poses and points",
     "Tests check a random convex polygon and ellipse at random points, never at boundary points.",
     [OB, EL, PO, SP], [("point location", PO + ":point_location"), ("", EL + ":point_location")], EX,
     "All simple lattice polygons on 3x3 (larger thorough) x presentations x poses x points: vertices, edge points, grid, against exact integer winding.",
     "Exact on the enumerated space.", ["point_location, interior_point, exterior_point, boundary_point"])
prop("C15", "Tangent points bound the visible silhouette in the right order",
     "For an exterior point from which the obstacle does not surround it, the two tangent points lie on the boundary, bound the obstacle's whole visible sector and come in "
     "the documented (clockwise, counter-clockwise) order; for interior points there are none.",
     ["inputs"], "all shapes, presentations, poses, frames and query points", "Tests check tangency on random convex shapes only.",
     [PO, EL, SP], [("polygon tangents", PO + ":tangent_points"), ("ellipse tangents", EL + ":tangent_points")], EX,
     "As C14, with grid and pocket query points; angular sectors computed from the definition.", "Exact up to 1e-6.", ["tangent_points"])
prop("C16", "Line intersections are exactly the points shared with the boundary",
     "The points reported for a line segment are exactly its extreme common points with the obstacle's boundary, also for lines through vertices, along edges, "
     "touching, vertical, and in every frame.",
     ["inputs"], "all shapes, poses, frames and segments between grid points", "Tests do not call the query for degenerate lines.",
     [OB, EL, PO, SC], [("line intersection", OB + ":line_intersection, " + EL + ":line_intersection")], EX,
     "All shapes x poses x all segments between grid points incl. vertices, against exact segment arithmetic.", "Exact up to 1e-6.", ["line_intersection"])
prop("C17", "Boundary mapping, reference direction and distance function agree with the shape",
     "The mapped point lies on the boundary on the ray from the reference point through the query point, the reference direction points along that ray, and "
     "the distance function is below, at or above one exactly for interior, boundary and exterior points and grows along the ray.",
     ["inputs"], "all starshaped shapes, reference points in the kernel, poses, frames and points", "Tests check random points with the default reference point.",
     [SO, EL, SP, SC], [("boundary mapping", SP + ":boundary_mapping, " + EL + ":boundary_mapping"), ("distance function", SO + ":distance_function")], EX,
     "Starshaped lattice polygons x presentations, ellipses x poses x reference points x points against ray/edge arithmetic.",
     "Exact up to 1e-6 on the enumerated space.", ["boundary_mapping, reference_direction, distance_function"])
prop("C18", "Normals are outward unit normals of the boundary",
     "At every boundary point that is not a corner the normal is the unit outward normal of the boundary, for all types, poses and frames; elsewhere it is the normal at the mapped boundary point.",
     ["inputs"], "all starshaped shapes, poses, frames and points", "Tests only check the sign of the scalar product with the reference direction for random shapes.",
     [SP, EL, SC], [("normal", SP + ":normal, " + EL + ":normal")], EX,
     "As C17, against edge normals and the ellipse gradient.", "Exact up to 1e-6 away from corners.", ["normal"])
prop("C19", "The kernel is exactly the set of points that see the whole obstacle",
     "The kernel reported for a starshaped obstacle is exactly the set of points from which the whole obstacle is visible; reference points chosen "
     "by the library lie in it, and a selected safe set keeps them there.",
     ["inputs"], "all starshaped polygons in every presentation, ellipses, poses", "Tests compute one kernel; the algorithm has many configuration-dependent branches.",
     [SP, SO, EL], [("kernel algorithm", SP + ":_compute_kernel"), ("reference selection", SO + ":set_xr")], EX,
     "All starshaped simple polygons on the 3x3 lattice and a fixed part of (thorough: all) those on 4x3 and 4x4 with up to 6/5 vertices x presentations, against half-plane clipping in exact arithmetic.",
     "Exact on the enumerated space; a few polygons for which the kernel algorithm is wrong are listed as known findings.", ["kernel", "xr"])
prop("C20", "Dilation yields the shape grown by the radius",
     "A dilated obstacle contains the original, stays within the requested distance of it, keeps pose, motion and reference point, and does not change the original; "
     "all its queries treat it as the grown shape.",
     ["inputs", "histories"], "all starshaped shapes, radii, poses, and preceding queries", "The tests dilate a random shape once.",
     [SP, EL, SO], [("dilated obstacle", SP + ":dilated_obstacle, " + EL + ":dilated_obstacle")], EX,
     "Shapes x radii x poses x preceding queries; comparison with the Minkowski sum computed from the definition.",
     "Polygon approximation tolerance stated in the check.", ["dilated_obstacle"])
prop("C21", "Motion models integrate their velocity and are private to their obstacle",
     "After any sequence of moves the pose equals the time integral of the commanded velocity and the reported velocity is that of the current time; "
     "objects handed in are never modified or adopted, and positions read earlier do not change with later moves.",
     ["histories"], "all sequences of moves with different step lengths for all motion models", "Tests do not cover motion models.",
     [MM, OB], [("motion models", MM), ("move", OB + ":move")], MC,
     "All event sequences up to depth 4 (5) over step lengths, velocity queries and pose changes for 13 motion models against an independent exact simulation; aliasing attempts at each state.",
     "All step sequences up to the depth bound.", ["pos, rot, lin_vel, ang_vel, obstacle.polygon after move"],
     "explicit-state exploration of step sequences with a reference model replayed on the implementation")
prop("C22", "Obstacle identities are unique and copies are equal and independent",
     "Automatically assigned identities never collide with each other or with those given explicitly before; a copy answers every query as the original, keeps or renews its identity as requested, "
     "and changing the copy's reference point does not change the original.",
     ["histories"], "all sequences of creating, copying and dilating obstacles up to a depth", "Tests never copy obstacles.",
     [OB, EL, SP, SO, SC], [("identity counter", OB + ":Obstacle"), ("copy", OB + ":copy")], MC,
     "All sequences of creation (automatic, explicit, temporary), copy and dilation up to depth 3 (4) on the real classes against a set model of identities.",
     "All sequences up to the depth bound.", ["id()", "copy()"],
     "explicit-state exploration of operation sequences with a reference model replayed on the implementation")
prop("C23", "Lines, rays and orientation predicates follow their definitions",
     "Orientation, collinearity, betweenness, segment intersection and the infinite line and ray constructors answer exactly as planar geometry prescribes.",
     ["inputs"], "all point tuples of a lattice incl. degenerate ones", "These helpers are untested.", [CG], [("predicates", CG)], EX,
     "All tuples of lattice points against exact integer arithmetic.", "Exact on the lattice.", ["is_ccw, is_cw, is_collinear, is_between, line, ray, Line, get_intersection, ..."])
prop("C24", "Convex hulls are exact for every point set",
     "The convex hull routine terminates and returns exactly the extreme points in counter-clockwise order for every point set including duplicates and collinear points.",
     ["inputs"], "all multisets of lattice points, in every order", "Untested; degenerate inputs make the wrapping loop.", [CG], [("convex hull", CG + ":convex_hull")], EX,
     "All sequences of up to 5 lattice points (and all subsets of larger lattices) against an exact monotone chain.", "Exact on the lattice.", ["convex_hull"])
prop("C25", "Random shape generators produce what they promise for every random draw",
     "Whatever the random numbers drawn, generated convex polygons are convex, simple and have the requested size, and generated starshaped polygons are starshaped about the intended point.",
     ["schedules", "inputs"], "every sequence of random draws (discretised)", "Tests run the generator with whatever numbers the seed gives.",
     [MI, CG], [("generators", MI)], FE,
     "The random source is replaced by an enumerating one; all draw sequences over a finite alphabet (incl. ties and extremes) are executed.", "All draw sequences over the alphabet up to the vertex bound.",
     ["generate_convex_polygon, generate_star_polygon"], "exhaustive enumeration of nondeterministic draws on the real code")
prop("C26", "A combination of obstacles answers as the union of its parts",
     "Point location, boundary mapping, line intersection, normal, convexity, polygon, kernel and surface velocity of a combined obstacle are those of the union of its parts and hull extension.",
     ["inputs", "configurations"], "all combinations of parts, extensions, reference points and query points", "Tests sample one random combination.",
     [SC], [("combination", SC + ":StarshapedPrimitiveCombination")], EX,
     "All parts, ordered pairs and triples of starshaped parts around a common reference point x poses x hull extensions x points and lines against the union geometry.", "Exact up to the polygon approximation of ellipses.",
     ["point_location, boundary_mapping, line_intersection, normal, kernel, polygon, is_convex, vel_intertial_frame"])
prop("C27", "Convexity and starshapedness are decided correctly for every presentation",
     "An obstacle is reported convex exactly if its region is convex, and starshaped exactly if it is convex or was constructed or declared as starshaped, for every vertex order, starting vertex, pose and with collinear vertices.",
     ["inputs"], "all simple polygons in every presentation", "Tests do not query convexity.", [PO, SP, SO, EL], [("convexity", PO + ":is_convex")], EX,
     "All simple lattice polygons x presentations x poses against exact turn arithmetic.", "Exact on the lattice.", ["is_convex, is_starshaped"])
prop("C28", "Drawing shows the current state",
     "Drawing an obstacle or a clustering result renders the current polygon in its current pose and leaves obstacles and results unchanged.",
     ["histories"], "all obstacle types and move sequences", "Tests only draw for manual inspection.", [OB, SC, CS], [("drawing", OB + ":draw"), ("", CS + ":draw_*")], EX,
     "Figures are rendered headless; patch vertices are compared with the polygon after every sequence of moves; results are compared before/after.", "Exact.", ["draw, init_plot, draw_clustering, draw_star_hull, draw_adm_ker"])
prop("C29", "Clustering depends on the scene only",
     "What cluster_and_starify returns (clusters, cluster geometry, kernel points, flag) for obstacles without clustering memory depends on the scene only: not on the order of the obstacle list, on the coordinate origin, on identities, on how, when or where obstacles were built, moved or queried before, on repeating the call or on recording the history; and the call changes neither its input points, nor the list, nor pose, shape, identity or text of the obstacles.",
     ["inputs", "histories"], "scenes x list orders x ways to arrive at the same scene", "Tests run every scene in one order and once.", [CS, SC, OB, EL, SP],
     [("clustering", CS + ":cluster_and_starify"), ("", SC + ":*"), ("caches", OB + ":polygon")], EX,
     "Metamorphic enumeration: every permutation of the list, translation, repetition, identities, history option, and obstacles that were relocated, re-mounted on another motion model, queried before or built in place; the partition, flag, iterations, cluster polygons, kernel points and reference points are compared.",
     "Not compared when robot, goal and the selected centre are collinear (random perturbation) or the kernel triangle degenerates.", ["cluster_and_starify"])
prop("C30", "Answers do not depend on how a shape is written down",
     "Every answer about a polygon (location, tangents, line intersections, reference direction, boundary mapping, distance, normal, kernel, dilation, admissible kernel, starshaped hull, clustering) is the same for every way to write the same point set: any starting vertex, orientation, redundant collinear or repeated vertices, closing vertex, lists, arrays or shapely geometries, integers or floats; numbers and points of other types give the same answers; and constructor arguments are not changed.",
     ["inputs"], "shapes x every presentation and container", "Tests construct every polygon in one way, from a float array.", [PO, SP, CS, SHF, CG], [("polygons", PO + ":Polygon"), ("", SP + ":StarshapedPolygon"), ("hull", SHF + ":polygon_kernel_starshaped_hull"), ("distinct vertices", CG + ":distinct_vertices")], EX,
     "Metamorphic enumeration: every presentation of every shape answers the same battery of queries as its plain presentation, on a grid of points, also through the hull, the admissible kernel and whole clustered scenes.",
     "Query points in general position; single precision compared to 1e-3.", ["Polygon, StarshapedPolygon, starshaped hull, admissible_kernel"])
prop("C31", "Answers do not depend on the coordinate system or the unit of length",
     "When a whole scene is moved, turned, mirrored or expressed in another unit of length (factors between 1/4 and 1024), every answer about an obstacle (location, tangents, line intersections, boundary mapping, normal, reference direction, kernel, dilation, admissible kernel, starshaped hull) is the moved, turned, mirrored or scaled answer, and under translation and change of unit clustering gives the same clusters, flag, cluster geometry and kernel points.",
     ["inputs"], "shapes and scenes x changes of the coordinate system", "Tests use coordinates around 1 in one orientation.", [PO, SP, EL, OB, CS, SHF, CG], [("frames", OB + ":transform"), ("queries", PO + ":Polygon"), ("", SP + ":StarshapedPolygon"), ("", EL + ":Ellipse"), ("hull", SHF + ":*"), ("clustering", CS + ":cluster_and_starify"), ("rays and cones", CG + ":Cone")], EX,
     "Metamorphic enumeration: the same battery of queries is asked in every coordinate system of a list of 17 (6 units, 8 motions, 3 mirror images) and mapped back.",
     "Not compared: the polygon approximation of ellipses under a change of unit (it is enlarged by a fixed length), turned scenes (the kernel triangle is aligned with the axes), scenes with robot, goal and kernel collinear.", ["all obstacle queries, admissible_kernel, kernel_starshaped_hull, cluster_and_starify"])
prop("C32", "Excluding obstacles keeps their extreme points out of merged clusters",
     "With the option exclude_obstacles, the centre of the kernel of every merged cluster is a point from which no extreme point (vertex) of another obstacle hides part of a member of the cluster, and neither does the robot or the goal, whenever such points exist; where nothing is merged the option changes nothing.",
     ["inputs", "configurations"], "all scenes and start/goal pairs", "Tests never use the option.", [CS, SHF, EL, PO], [("clustering", CS + ":cluster_and_starify"), ("extreme points", PO + ":extreme_points"), ("", EL + ":extreme_points"), ("cone", SHF + ":admissible_kernel")], EX,
     "Every scene of the alphabet x robot/goal pairs is solved with the option; for every merged cluster of every iteration the set of allowed points is computed independently (complement of the shadows behind all extreme points) and the kernel centre tested against it.",
     "Sets of less than 1e-3 area are not judged; the corners of the kernel triangle may leave a non-convex set.", ["cluster_and_starify"])
