prop('P10', 'Lofts and Gordon surfaces contain the curves they are built from',
     'A surface lofted through sections contains every section exactly at its v parameter (given or computed), is the ruled surface for v-degree 1, meets the spine tangents it was given, and keeps a section polynomial or rational. '
     'An approximated loft stays within its tolerance of the sections. A Gordon surface contains every curve of both families at its parameter; curves of the two families that do not meet are refused with an exception.',
     ['inputs', 'configurations'], 'all families of 2 to 6 sections of mixed degrees, knots, domains and rationality; all v parameters and degrees; all compatible curve networks',
     'The tests loft three or four sections with the same degree and knots and look mostly at the result; sections with different knots or uneven parameters, mixed rationality and non-touching networks are not sampled.',
     ['gbs/bssbuild.h', 'gbs/bsctools.h', 'gbs/bssinterp.h', 'gbs/loft/loftBase.h', 'gbs/loft/loftGeneric.h', 'gbs/loft/loftCurves.h'],
     [('loft', 'gbs/bssbuild.h loft, loft_generic'), ('Gordon', 'gbs/bssbuild.h gordon, build_intersections'), ('unification of sections', 'gbs/bsctools.h unify_degree, unify_knots')],
     'property-based testing against a quad-precision reference evaluator', 'random section families and networks, each section compared along its whole length with the surface; ruled and Boolean-sum identities',
     ['loft', 'gordon', 'isoV'])
prop('P11', 'Shaping meets its constraints and moves nothing else',
     'Moving a curve or surface to point and derivative constraints makes it meet all of them at their parameters, moves only poles that have support at a constrained parameter, keeps bounds asked to be fixed, and among all pole displacements that do so picks the one of least norm; constraints already met change nothing.',
     ['inputs'], 'all curves and surfaces, all consistent sets of point and derivative constraints, with and without fixed bounds',
     'Tests move one point of one curve and look at that point; several simultaneous constraints, derivative constraints, unaffected poles and minimality are not examined.',
     ['gbs/bscshaping.h', 'gbs/bssshaping.h'],
     [('constraint matrix and minimum-norm solve', 'gbs/bscshaping.h moved_to_constraints_delta'), ('surface constraints', 'gbs/bssshaping.h')],
     'property-based testing against linear-algebra oracles', 'random curves, surfaces and constraint sets; constraints evaluated in quad precision, least displacement certified by orthogonality to random feasible moves',
     ['move_to_constraints', 'moved_to_point'])
prop('P12', 'Arc length and samplings are what they say',
     'The length of a curve between two parameters is the integral of its speed whatever its representation, is additive, and its derivatives are those with respect to the end. '
     'The arc-length law inverts the length; equal-length samplings have the asked number of parameters, the exact ends, increasing order and equal lengths between neighbours to the accuracy of the law; deviation based samplings of curves and surfaces are sorted, keep the initial parameters and the interior knots, leave no chord deviating more than asked and never exceed the maximum number of points. '
     'Bulk points equal pointwise evaluation exactly and an invalid parameter is an exception the caller can catch; tangent and normal directions are the unit ones.',
     ['inputs', 'configurations'], 'all curves in 2D and 3D, polynomial and rational, all sub-ranges, sample counts, deviations and limits',
     'Tests measure circles and one spline on the whole domain; sub-ranges, kinks, stationary pieces, sample limits and large batches are not sampled.',
     ['gbs/bscanalysis.h', 'gbs/bssanalysis.h', 'gbs/execution.h'],
     [('quadrature', 'gbs/bscanalysis.h length'), ('arc-length law', 'gbs/bscanalysis.h abs_curv*'), ('samplings', 'gbs/bscanalysis.h uniform_distrib_params, deviation_based_params, make_points')],
     'property-based testing against independent quadrature and definitions', 'random curves and ranges, per-span Gauss quadrature of the reference speed, definition of each sampling',
     ['length', 'abs_curv', 'uniform_distrib_params', 'deviation_based_params', 'discretize', 'make_points'])
prop('P13', 'Projections and intersections return a local optimum of the true distance',
     'Projecting a point on a curve or surface, and intersecting curves with curves or surfaces, returns parameters inside the domains, at which no sample of the search bracket (or the starting point given) and, on smooth shapes, no neighbouring parameter is closer; the value reported belongs to those parameters; a transversal crossing next to the best samples is found. '
     'Two lines of the plane meet where reported; solving for a coordinate returns a parameter having it; the closest of several curves is the closest. Every search terminates.',
     ['inputs'], 'all curves and surfaces (any domain), all query points and starting points inside the domain, crossing and separate pairs',
     'Tests project points lying on two curves and one surface; points off the shape, domains other than [0,1], near tangency, the curve/surface starting point and several candidate curves are not sampled.',
     ['gbs/extrema.h', 'gbs/solvers.h', 'gbs/bscanalysis.h', 'gbs/math.ixx'],
     [('bracketing', 'gbs/extrema.h, gbs/math.ixx make_range'), ('minimisation', 'gbs/solvers.h solve_D_nlop')],
     'property-based testing with optimality oracles', 'random queries; domain membership, consistency of the reported value, comparison with bracket samples and neighbours, constructed crossings',
     ['extrema_curve_point', 'extrema_surf_pnt', 'extrema_curve_curve', 'extrema_surf_curve', 'solve_coordinate', 'closest_curve'])
prop('P14', 'Bulk and parallel evaluation equals pointwise evaluation',
     'Evaluating many parameters at once gives exactly what evaluating each alone gives, in the same order, whatever the batch size, the container, the thresholds above which the work is spread over threads, and the number of threads sharing the shape. '
     'When an element of a batch fails, the failure reported is the one of the first failing element, as an exception the caller can catch; batches of builds keep their order and report their failures the same way.',
     ['inputs', 'schedules', 'configurations'], 'all curves and surfaces, all batch sizes on both sides of the thresholds, all positions of invalid parameters, concurrent readers',
     'Tests evaluate one small batch sequentially; sizes around the gates, invalid elements inside parallel loops and concurrent use are not exercised.',
     ['gbs/execution.h', 'gbs/bscurve.h', 'gbs/bssurf.h', 'gbs/bscanalysis.h', 'gbs/bscinterp.h', 'gbs/bscapprox.h'],
     [('parallel gates', 'gbs/execution.h'), ('bulk evaluation', 'gbs/bscurve.h values, gbs/bssurf.h values'), ('exceptions in parallel loops', 'gbs/execution.h')],
     'differential property-based testing', 'random shapes and batches; bulk results compared bit for bit with pointwise ones under moved gates and with concurrent readers',
     ['values', 'points', 'make_points', 'discretize'])
prop('P15', 'What is saved is what is read back',
     'A curve or surface written to JSON and read back has the same type, degrees, knots, weights and points, to the accuracy of the number format, through memory or a file, and a second trip adds nothing but rounding. '
     'Composed shapes come back with the same geometry, documents in the older layout are still read, broken documents are refused with an exception rather than read into an invalid shape, and point files are read as written.',
     ['inputs'], 'all serialisable curves and surfaces with arbitrary numbers; all documents obtained by dropping, retyping or truncating members',
     'Tests save a few shapes with round numbers; awkward numbers, nested shapes, and malformed documents are not sampled.',
     ['gbs-io/tojson.h', 'gbs-io/fromjson.h', 'gbs-io/fromtext.h', 'gbs-io/print.h'],
     [('writer', 'gbs-io/tojson.h'), ('reader', 'gbs-io/fromjson.h'), ('point files', 'gbs-io/fromtext.h')],
     'round-trip property-based testing and structured document mutation', 'random shapes serialised and read back; mutated documents must throw',
     ['make_json', 'parse_file', 'make_curve', 'make_surface'])
prop('P16', 'Derived curves and surfaces are what they are built from',
     'A trimmed, reversed, extended, reparametrised, composite or offset curve, a curve on a surface, a circle, a line and a surface of revolution have, at every parameter of their domain, the point and derivatives given by their definition applied to the shapes they are built from, however nested. '
     'Their bounds are the ones of the definition, joints of a composite are evaluated on the documented side, and setters such as a new radius are honoured.',
     ['inputs', 'configurations'], 'all base curves and surfaces, all nestings, all parameters including ends and joints, derivative orders 0 to 3',
     'Tests evaluate each derived kind alone at orders 0 and 1; second derivatives, shifted axes, nesting and ends are not sampled.',
     ['gbs/curvecomposite.h', 'gbs/offsets.h', 'gbs/curvescheck.h', 'gbs/curvetrimmed.h', 'gbs/curveoffset.h', 'gbs/curveonsurface.h', 'gbs/curveextended.h', 'gbs/curvereparametrized.h', 'gbs/curveReversed.h', 'gbs/curvecircle.h', 'gbs/curveline.h', 'gbs/surfaceofrevolution.h'],
     [('chain rule', 'gbs/curveonsurface.h, gbs/curvereparametrized.h, gbs/curveoffset.h'), ('conics and lines', 'gbs/curvecircle.h, gbs/curveline.h'), ('revolution', 'gbs/surfaceofrevolution.h')],
     'property-based testing against definitions', 'random nested derived shapes, value and derivatives compared with the chain rule applied to the base shapes',
     ['value', 'bounds', 'derivatives'])
prop('P17', 'Transformations and vector algebra obey their laws',
     'Translating, rotating, scaling, mirroring or mapping a curve, surface or point list moves every point by exactly that map, weights and parameters being unchanged, and the copying forms leave their argument alone. '
     'Frames map on each other and back; vector algebra satisfies its identities; weights are added, removed and rescaled without moving the shape; pole grids are transposed and inverted consistently; ranges have the size and ends asked for.',
     ['inputs'], 'all shapes in 1 to 3 dimensions, polynomial and rational, all rigid, scaling and affine maps, all vectors, grids and ranges',
     'Tests rotate by right angles around coordinate axes and translate one curve; arbitrary axes, homogeneous weights and non-square grids are not sampled.',
     ['gbs/transform.h', 'gbs/transformpoints.h', 'gbs/vecop.ixx', 'gbs/math.ixx', 'gbs/bscapprox.h', 'gbs/bsctools.h'],
     [('point maps', 'gbs/transformpoints.h'), ('shape maps', 'gbs/transform.h'), ('vector algebra', 'gbs/vecop.ixx')],
     'metamorphic property-based testing', 'random maps applied to shapes; points of the mapped shape against mapped points; algebraic identities',
     ['translate', 'rotate', 'scale', 'transform', 'scale_poles', 'make_range'])
prop('P18', 'Geometric predicates give the exact answer',
     'The orientation of three points is exact for every input, in float and in double. The in-circle sign, circumcentres, point-in-triangle, point-in-polygon, segment and ray crossing tests give the right answer whenever it is not within rounding of a degenerate one, with boundary points counted as documented.',
     ['inputs'], 'all points, in particular nearly aligned, nearly cocircular and grid points; all polygons, segments and triangles',
     'Tests check a few well separated points; nearly degenerate configurations, where the sign is decided by rounding, cannot be sampled by hand.',
     ['inc/topology/baseIntersection.h', 'inc/topology/baseGeom.h', 'inc/topology/robustPredicates.h', 'gbs/bscbuild.h', 'inc/topology/halfEdgeMeshGeomTests.h'],
     [('exact orientation', 'topology orient2d'), ('in circle', 'topology in_circle'), ('polygon inclusion', 'topology is_inside')],
     'differential property-based testing against exact integer arithmetic', 'random, nearly degenerate and grid configurations, sign compared with 128-bit integer evaluation',
     ['orient2d', 'in_circle', 'is_inside', 'seg_seg_strict_intersection', 'on_seg'])
prop('P19', 'A half-edge mesh stays consistent through every edit',
     'After any sequence of edits (adding faces and vertices, splitting and flipping edges, removing and erasing faces, joining meshes) every face is a closed loop, opposite edges point to each other exactly where two faces share an edge, and every query (neighbours, faces around a vertex, boundaries, loops, edge and vertex lists) answers what the set of triangles implies. '
     'Edits change exactly the triangles they name, for meshes in 2 and in 3 dimensions.',
     ['histories'], 'all histories of edits on triangle meshes, including boundaries, several components, and vertices where the mesh pinches',
     'Tests build one mesh of a few faces and apply one edit; stale links left by an edit show only in what later edits and queries do.',
     ['inc/topology/halfEdgeMeshData.h', 'inc/topology/halfEdgeMesh.h', 'inc/topology/halfEdgeMeshEditors.h', 'inc/topology/halfEdgeMeshGetters.h', 'inc/topology/edgeRecovery.h'],
     [('edits', 'inc/topology/halfEdgeMeshEditors.h'), ('queries', 'inc/topology/halfEdgeMeshGetters.h'), ('edge split and flip', 'inc/topology/halfEdgeMeshEditors.h')],
     'stateful model-based property-based testing', 'random histories of edits applied to the mesh and to a set of vertex triples; every link and query compared after each step',
     ['add_face', 'flip', 'getNeighboringVertices', 'remove_faces', 'split'])
prop('P20', 'Triangulations are conforming, Delaunay and keep what they are given',
     'A triangulation of points, of a polygon with holes or of the domain of a surface has positively oriented faces that fit together edge to edge, uses exactly the points given, covers exactly the hull, polygon or domain, and satisfies the empty circle condition where nothing constrains it; required edges are in it. '
     'Inserting a point changes only its cavity or nothing at all, refinement ends with the criterion met or the allowed number of points spent, and duplicates, aligned and cocircular points change none of this.',
     ['inputs', 'histories'], 'all finite point sets not all aligned, all simple polygons with disjoint holes, all insertion orders, all smooth surfaces and criteria',
     'Tests triangulate a few sets in general position and mostly look at face counts; cocircular, aligned and elongated sets, reflex polygons and refinement limits are not sampled.',
     ['inc/topology/tessellations.h', 'inc/topology/edgeRecovery.h', 'inc/topology/halfEdgeMeshQuality.h', 'inc/topology/halfEdgeMeshGeomTests.h', 'gbs/bssanalysis.h'],
     [('insertion', 'inc/topology/tessellations.h boyerWatson'), ('constraints', 'inc/topology/tessellations.h delaunay2DConstrained'), ('edge recovery', 'inc/topology/edgeRecovery.h'), ('refinement', 'inc/topology/tessellations.h')],
     'property-based testing against exact geometric invariants', 'random and degenerate point sets, polygons and surfaces; exact orientation, links, extended precision circles, areas and edge sets',
     ['boyerWatson', 'delaunay2DConstrained', 'recoverEdge', 'meshSurfaceBoundary'])
prop('P21', 'Structured meshes follow their curves and their equations',
     'A transfinite mesh has the numbers of nodes its sizes say, passes through every curve of the lattice at that curve\'s equally spaced points, and has inside exactly the blend of the curves that defines it, whatever the parameter ranges and hard lines. '
     'Blending functions satisfy their cardinal conditions, incompatible lattices are refused, edge meshes have the first and last steps asked for, and smoothing moves inner nodes only, by the equations of the elliptic smoother, leaving regular meshes alone.',
     ['inputs'], 'all lattices of curves, surfaces, parameter ranges, hard lines, sizes, and blending orders',
     'Tests mesh one unit square patch and compare its boundary; other ranges, inner hard lines, short sections and inner nodes are not sampled.',
     ['gbs-mesh/tfi.h', 'gbs-mesh/smoothing.h', 'gbs-mesh/mshedge.h', 'gbs/curvescheck.h'],
     [('transfinite mesh', 'gbs-mesh/tfi.h tfi_mesh_2d'), ('sizes and curve sets', 'gbs-mesh/tfi.h msh_curves_set'), ('smoothing', 'gbs-mesh/smoothing.h'), ('edge mesh', 'gbs-mesh/mshedge.h')],
     'differential property-based testing against an independent transfinite formula', 'random lattices, surfaces and sizes; every node compared with an independent evaluation; one step of the smoother recomputed',
     ['tfi_mesh_2d', 'msh_curves_set', 'elliptic_structured_smoothing', 'msh_edge'])
prop('P22', 'Edges end at their vertices and wires stay chained',
     'A wire accepts exactly the edges that meet one of its free ends within tolerance, at that end, and afterwards consecutive edges share their vertices; it is closed exactly when its two ends meet, after which it refuses everything. '
     'An edge takes a vertex exactly when it lies on its curve within tolerance, its range then starts or stops there, and a refusal leaves wire and edge unchanged.',
     ['histories'], 'all histories of edges of any kind offered to a wire in 2 and 3 dimensions, gaps below and above the tolerance, closed curves',
     'Tests chain four edges in one order; shared vertices at one end, gaps, refusals and vertices inside curves are not sampled.',
     ['inc/topology/wire.h', 'inc/topology/edge.h', 'inc/topology/vertex.h', 'inc/topology/basetopo.h'],
     [('chaining', 'inc/topology/wire.h addEdge'), ('vertices of an edge', 'inc/topology/edge.h setVertex1 setVertex2')],
     'stateful model-based property-based testing', 'random histories of edges offered to a wire, compared with the chain of end points after each step',
     ['addEdge', 'setVertex1', 'setVertex2', 'isClosed'])
prop('P23', 'The Open CASCADE bridge keeps the geometry it is given',
     'A curve or surface of the library converted to Open CASCADE has the same degree, knots, poles and weights and the same points and derivatives everywhere, interpolated curves pass through their points with the tangents imposed, lofts contain their sections, and exported curves read back the same up to the scale. '
     'Lengths, areas and centres match the shapes measured, the nearest point of a curve or surface is the nearest one, and containers, shapes and finite differences come out entry for entry.',
     ['inputs'], 'all curves, NURBS and surfaces of degree 1 to 8, any knots, weights, point lists, tangents, polygons and boxes',
     'Tests convert one curve of each kind and compare a few points; rectangular nets, multiple knots, weights, kinked wires and shapes without a perpendicular are not sampled.',
     ['gbs-occt/curvesbuild.h', 'gbs-occt/curvesbuild.cpp', 'gbs-occt/surfacesbuild.h', 'gbs-occt/surfacesbuild.cpp', 'gbs-occt/containers.h', 'gbs-occt/brepbuilders.h', 'gbs-occt/measure.cpp', 'gbs-occt/intersections.cpp', 'gbs-occt/funtionsforsolver.cpp', 'gbs-occt/export.h', 'gbs-occt/geomprim.h'],
     [('curve conversion', 'gbs-occt/curvesbuild.h BSplineCurve NURBSplineCurve'), ('surface conversion', 'gbs-occt/surfacesbuild.h BSplineSurface'), ('interpolation', 'gbs-occt/curvesbuild.cpp bscurve_c1'), ('measures', 'gbs-occt/measure.cpp')],
     'differential property-based testing against Open CASCADE', 'random shapes converted and evaluated by both libraries against a quad precision model; interpolation conditions, sampled lengths and distances',
     ['BSplineCurve', 'NURBSplineCurve', 'bscurve_c1', 'nearest_PC'])
prop('P24', 'What is drawn is the geometry given',
     'A graphical object built from points, curves, surfaces, nets, meshes or boundaries holds exactly the points of the geometry, in its order, with the cells the topology implies, each vertex once, oriented as given, and with the colours, sizes and scale asked for. '
     'Poles of rational curves are drawn where they are, curves by points of theirs from end to end, surfaces by a grid that covers them once, normals are those of the surface.',
     ['inputs'], 'all point lists, curves, NURBS, surfaces, rectangular nets, triangulations and open or closed chains of half edges',
     'The render tests open windows and assert nothing, so no test compares what is drawn with the geometry; many of the templates were never instantiated.',
     ['gbs-render/vtkcurvesrender.h', 'gbs-render/vtkcurvesrender.cpp', 'gbs-render/vtkSurfaceRender.h', 'gbs-render/vtkgridrender.h', 'gbs-render/vtkGbsRender.h', 'inc/topology/halfEdgeMeshRender.h'],
     [('curves and control polygons', 'gbs-render/vtkcurvesrender.h make_actor make_ctrl_polygon'), ('surfaces', 'gbs-render/vtkSurfaceRender.h make_actor'), ('grids', 'gbs-render/vtkgridrender.h make_structuredgrid'), ('meshes', 'inc/topology/halfEdgeMeshRender.h make_polydata_from_faces make_polydata_from_edges_loop')],
     'property-based testing with invariants over the drawn data sets', 'random geometry turned into graphical objects without a window; points, cells and attributes compared with those computed from the geometry and a quad precision model',
     ['make_actor', 'make_polyline', 'make_structuredgrid', 'make_polydata_from_faces'])
prop('P25', 'Python gets the geometry C++ has',
     'Every shape, value and edit reached through the Python module equals what the C++ library gives for the same arguments, default arguments included, whichever overload, keyword order or list form is used. '
     'Copies and pickles are equal and independent, shapes handed over keep living, and what C++ refuses raises in Python.',
     ['inputs', 'histories'], 'all curves, NURBS, surfaces, derived shapes, functions, constraint lists and argument spellings of the module, and edit sequences on them',
     'The Python tests call a few functions once and are not among the stable tests; a swapped argument or a shadowed overload only shows for shapes whose two directions, weights or parameters differ.',
     ['python/gbsbind.cpp', 'python/gbsBindCurves.h', 'python/gbsBindCurves.cpp', 'python/gbsBindSurfaces.h', 'python/gbsBindSurfaces.cpp', 'python/gbsBindInterpCurve.h', 'python/gbsBindInterpSurface.h', 'python/gbsbindapprox.h', 'python/gbsbindextrema.h', 'python/gbsbindbuildcurve.h', 'python/gbsBindBuildSurfaces.h', 'python/gbsBindCurveTools.h', 'python/gbsBindSurfaceTools.h', 'python/gbsBindShaping.h', 'python/gbsBindDiscretize.h', 'python/gbsbindmesh.cpp'],
     [('module', 'python/gbsbind.cpp PYBIND11_MODULE'), ('curves', 'python/gbsBindCurves.h gbs_bind_curves'), ('fits', 'python/gbsbindapprox.h gbs_bind_approx'), ('projections', 'python/gbsbindextrema.h gbs_bind_extrema')],
     'differential property-based testing against the C++ library and a reference model', 'random shapes and calls made through the module in an embedded interpreter and directly in C++; results, refusals, copies and pickles compared',
     ['insertKnot', 'reverseV', 'approx', 'extrema_curve_curve'])
