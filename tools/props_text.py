I, H, C = ["inputs"], ["histories", "inputs"], ["configurations", "inputs"]

# ---------------------------------------------------------------- geometry
p("G01", "Lengths, areas, volumes, centroids and normals are exact",
  "For every non-degenerate line, triangle, planar simple polygon, planar quadrilateral, tetrahedron, parallelepiped-shaped prism or hexahedron and closed outward-oriented polyhedron, the reported length, area, volume and unit normal equal the exact geometric values, the centroid of a line, triangle or tetrahedron is exact and that of a polygon or polyhedron is the mean of its vertices or face centroids. "
  "Translating the shape, or starting a polygon at another vertex, leaves its measures unchanged; reversing the vertex order of a triangle or polygon flips its normal only. "
  "After a shape is reset and refilled and its measures are recomputed with the re-calculation flag, they equal those of a freshly built shape.",
  H, "every shape with vertices on a small integer lattice, every cyclic start/reversal, and every reuse history of two shapes on one object",
  "Each test evaluates one or two shapes; degeneracy-adjacent, rotated, reversed and re-used objects are never compared with an exact value.",
  ["geometry/GeoTriangle_Imp.hpp", "geometry/GeoPolygon_Imp.hpp", "geometry/GeoTetrahedron_Imp.hpp", "geometry/GeoPolyhedron_Imp.hpp", "geometry/GeoHexahedron_Imp.hpp", "geometry/GeoTriangularPrism_Imp.hpp", "geometry/GeoQuadrilateral_Imp.hpp", "geometry/GeoLine_Imp.hpp"],
  [("calculateArea/Volume/Normal/Centroid with lazy caches", "geometry/GeoPolyhedron_Imp.hpp")])

p("G02", "Clipping by a plane keeps exactly the part on the requested side",
  "Clipping a segment, a convex polygon or a convex polyhedron by a plane returns exactly the part on the non-positive side of the plane (normal dot x <= offset): the result's measure is the exact measure of that part, every returned vertex lies in the original shape and on the kept side, and a shape wholly on the removed side vanishes while one wholly on the kept side is unchanged. "
  "The parts kept by a plane and by its reversed plane add up to the whole, and a clipped polyhedron is again closed and outward oriented.",
  I, "every shape of a catalogue over a small integer lattice against every plane of a lattice of normals and offsets, including planes through vertices, edges and faces, and every sequence of two or three successive clips",
  "The tests clip a unit cube by a handful of planes and compare one volume; tangential, vertex-touching and repeated cuts are where clipping code breaks.",
  ["geometry/GeoLine_Imp.hpp", "geometry/GeoPolygon_Imp.hpp", "geometry/GeoPolyhedron_Imp.hpp"],
  [("polygon/polyhedron clip", "geometry/GeoPolyhedron_Imp.hpp"), ("line clip", "geometry/GeoLine_Imp.hpp")])

p("G03", "Clipping to a volume fraction delivers that fraction",
  "Clipping a convex polyhedron along a direction to a requested volume fraction between 0 and 1 returns a closed polyhedron whose volume is that fraction of the original within the requested tolerance, and reports that fraction and the plane offset that realises it; a finite-volume cell clipped again refers to its original shape. "
  "The offset grows monotonically with the fraction, and the kept part lies on the non-positive side of the reported plane; fraction 0 gives an empty part and fraction 1 the whole. Cutting, by a plane or to a fraction, returns both parts: they lie on either side and add up to the whole.",
  I, "every polyhedron of a catalogue, every direction of a lattice of unit normals (axis, edge and diagonal aligned), every fraction of a grid including 0, 1 and values close to them",
  "Tests use a few normals and fractions on a cube; the iterative solve has branches for flat or steep volume curves that only special directions reach.",
  ["geometry/GeoPolyhedron_Imp.hpp", "fvm/FvmControlVolume_Imp.hpp"],
  [("Brent iteration on the plane offset", "geometry/GeoPolyhedron_Imp.hpp")])

p("G04", "Box indexes return exactly the stored boxes that intersect the query",
  "After any sequence of insertions and removals, a box query on the R-tree returns each stored identifier whose box intersects the query box (touching counts) and no other. "
  "The same holds for the alternating digital tree after any sequence of insertions and removals by identifier. Querying never changes what is stored.",
  H, "every sequence of insertions and removals up to a depth over a small alphabet of overlapping, nested, touching, disjoint and degenerate boxes, plus larger systematic fills that force node splits, with every query box of a lattice asked in every state",
  "Tests insert three boxes and query once; node splits, removals with re-insertion and touching boxes are not reached.",
  ["geometry/GeoRtree_Imp.hpp", "geometry/GeoAdtree_Imp.hpp"],
  [("R-tree insert/remove/search", "geometry/GeoRtree_Imp.hpp"), ("alternating digital tree", "geometry/GeoAdtree_Imp.hpp")])

p("G05", "Point indexes find every stored point within the tolerance",
  "After any set of points has been added and the index built, a hash-grid query returns every stored identifier whose point lies within the tolerance of the query position and no other. "
  "Reset followed by a new fill behaves like a new index, for any number of fill-build-reset rounds; the octree index finds a stored point when asked at its exact position.",
  H, "every multiset of up to a few points of a small lattice (coincident points included), every query position of a finer lattice, every tolerance of a list, every history of two fill rounds",
  "Tests insert a few distinct points and query one; coincident points, query positions on cell borders, and index reuse are untested.",
  ["geometry/GeoHashGrid_Imp.hpp", "geometry/GeoOctree_Imp.hpp", "geometry/GeoContainer_Imp.hpp"],
  [("bucket counting sort and neighbour-cell scan", "geometry/GeoHashGrid_Imp.hpp"), ("octant dispatch", "geometry/GeoOctree_Imp.hpp")])

p("G06", "Bounding boxes are tight and their predicates are set-theoretic",
  "The bounding box of a segment, triangle, quadrilateral, tetrahedron, polyhedron, circle, sphere, mesh or mesh element is the smallest axis-aligned box containing it; a box built by adding points or boxes in any order is the smallest one containing them all. "
  "Containment and intersection tests agree with closed-interval arithmetic (within the given tolerance), intersection is symmetric, and growing then shrinking by the same amount restores the box.",
  H, "every sequence of point/box additions, grow and shrink operations up to a depth over a small lattice, every pair of lattice boxes and every box/point pair",
  "Tests check one pair of boxes; tolerance, touching and containment configurations form a combinatorial space.",
  ["geometry/GeoBoundingBox_Imp.hpp", "geometry/GeoTriangle_Imp.hpp", "geometry/GeoPolygon_Imp.hpp", "mesh/MshMesh_Imp.hpp"],
  [("addCoordinate/grow/shrink/intersects/contains", "geometry/GeoBoundingBox_Imp.hpp")])

p("G07", "Intersection and distance predicates classify correctly",
  "For two segments, a segment and a plane, a segment and a triangle, two triangles, and a point and a line or triangle, the reported intersection verdict, classification, intersection point and distance agree with exact geometry (touching counts; a segment parallel to a plane or to a triangle's plane counts as not crossing it, and the distance of parallel segments is not defined). "
  "The verdict is independent of the order of the two segments' end points, a point reported inside a triangle is inside it, and segments that pass each other at a distance far above the tolerance are never reported as intersecting.",
  I, "every pair of segments, every segment/plane pair, segment/triangle pair and point/triangle pair over a small integer lattice, decided by exact rational arithmetic",
  "Tests check isolated well-separated configurations; touching, collinear, parallel and skew configurations are where classification differs.",
  ["geometry/GeoLine_Imp.hpp", "geometry/GeoTriangle_Imp.hpp", "geometry/GeoPlane_Imp.hpp"],
  [("line-line / line-plane intersection", "geometry/GeoLine_Imp.hpp"), ("triangle contains / intersects", "geometry/GeoTriangle_Imp.hpp")])

p("G08", "The convex hull is the convex hull",
  "For every finite planar set of points (in any plane of space) whose first three points are not collinear, the computed hull consists of input points only, contains every corner of the exact convex hull, runs once round the boundary so that all input points lie on one side of each of its sides, and encloses the exact hull area. "
  "Repeated and collinear points, the order of the input and the position of the plane do not matter, and a reset hull behaves like a new one.",
  I, "every ordered selection of small lattice point sets and every subset of a larger lattice, in several planes of space, with repetitions",
  "The test computes one hull in the xy plane; collinear, repeated and rounded points and other planes need enumeration.",
  ["geometry/GeoConvexHull_Imp.hpp", "geometry/GeoCoordinate_Imp.hpp"],
  [("monotone chain", "geometry/GeoConvexHull_Imp.hpp")])

p("G09", "Vectors, planes and coordinate systems obey their algebra",
  "Vector length, normalisation, dot, cross, angle and rotation about the z axis agree with exact vector algebra: angles are in the principal range and symmetric, rotation preserves length and the z component and composes additively. "
  "Signed distances from a plane are exact and change sign with the plane's reversal, and expressing a point in a coordinate system follows the system's axes exactly, so an orthonormal system preserves distances.",
  I, "every pair of small-integer vectors, every axis/angle of a grid and every pair of rotations, every plane/point pair and every axis-permuting coordinate system",
  "Tests use one vector or one angle each.",
  ["geometry/GeoVector_Imp.hpp", "geometry/GeoPlane_Imp.hpp", "geometry/GeoCoordinate_Imp.hpp"],
  [("rotate/angle/normalize", "geometry/GeoVector_Imp.hpp"), ("plane distance", "geometry/GeoPlane_Imp.hpp"), ("coordinate transform", "geometry/GeoCoordinate_Imp.hpp")])

p("G10", "Circles and spheres through points pass through those points",
  "The circle through three non-collinear points of the xy plane (or a parallel plane) and the sphere through four non-coplanar points have a centre equidistant from all of them and report that distance as radius, in every order of the points. "
  "Their area or volume follows from the radius, and a point is reported contained exactly when its distance to the centre does not exceed the radius (within the tolerance).",
  I, "every triple/quadruple of lattice points in every order, every lattice query point",
  "Tests use two or three point sets; vertical/horizontal chords and permutations are special cases of the formulas.",
  ["geometry/GeoCircle_Imp.hpp", "geometry/GeoSphere_Imp.hpp"],
  [("3-point circle", "geometry/GeoCircle_Imp.hpp"), ("4-point sphere", "geometry/GeoSphere_Imp.hpp")])

p("G11", "Edge lists chain into loops and vertex cleaning keeps the shape",
  "Sorting a shuffled list of segments that form one closed loop (or a chain whose head is given first) yields the same segments chained head to tail, regardless of the order and direction they were given in, and a polyline built from a chained list has the same vertices and reports closedness correctly. "
  "Removing duplicate or collinear vertices of a polygon keeps its area and removes only vertices that are repeated or lie on a straight side.",
  I, "every permutation and orientation of the sides of small polygons, every insertion of duplicate/collinear vertices",
  "Tests sort one list; the outcome depends on the order and orientation of the input.",
  ["geometry/GeoLineList_Imp.hpp", "geometry/GeoPolyline_Imp.hpp", "geometry/GeoVertexList_Imp.hpp"],
  [("line list sort", "geometry/GeoLineList_Imp.hpp"), ("removeDuplicates/removeCollinear", "geometry/GeoVertexList_Imp.hpp")])

p("G12", "Decomposing a shape into simplices covers it exactly",
  "Triangulating a strictly convex planar polygon, splitting a planar convex quadrilateral into triangles and a convex hexahedron with planar faces into tetrahedra produces pieces of non-zero size and one orientation that use only corners of the shape, do not overlap, fit together along whole edges or faces, and whose measures add up to the whole, whatever the starting corner, direction or plane.",
  I, "every strictly convex lattice polygon up to a vertex count (every starting corner, either orientation, several planes), every box and skewed or tapered hexahedron of a catalogue",
  "Tests triangulate one or two polygons; the choice of ears and of diagonals must fit together for every shape.",
  ["geometry/GeoPolygon_Imp.hpp", "geometry/GeoHexahedron_Imp.hpp", "geometry/GeoQuadrilateral_Imp.hpp"],
  [("ear triangulation", "geometry/GeoPolygon_Imp.hpp"), ("decimate", "geometry/GeoHexahedron_Imp.hpp")])

# ---------------------------------------------------------------- mesh
p("M01", "A mesh keeps identifiers, positions and contents consistent",
  "After any sequence of adding nodes, elements and faces, removing them, and rebuilding the indices, a mesh holds exactly the surviving entities: identifiers and indices are mutually inverse, stored coordinates and node lists are those last given, next free identifiers are unused, and counts match. "
  "A copy of the mesh shows the same content and later changes to either do not affect the other.",
  H, "every operation sequence up to a depth over a small identifier alphabet (non-contiguous and negative-gap identifiers included), against a map-based reference model",
  "Tests build one mesh with ascending identifiers; removal and re-addition histories are never compared with a model.",
  ["mesh/MshMesh_Imp.hpp", "mesh/MshElement_Imp.hpp", "mesh/MshFace_Imp.hpp"],
  [("id lists, id->index maps", "mesh/MshMesh_Imp.hpp")],
  state=[("node/element/face id lists and index maps", "two views of the same content", "mesh/MshMesh.hpp")])

p("M02", "Generated faces pair neighbours and expose the boundary",
  "After faces are generated for a conforming mesh of any element type, each element has one face per side with the side's nodes, two faces are paired exactly when they are the same side of two different elements, pairing is mutual, and the remaining faces are exactly the boundary, whose count is reported. "
  "The extracted boundary mesh consists of exactly those sides, closed for a solid mesh, and generating faces again gives the same result.",
  C, "every subset of cells of small structured grids of beams, triangles, quadrilaterals, tetrahedra, prisms and hexahedra, with shuffled identifiers and repeated generation",
  "Tests count faces of one grid; unusual adjacency (edge- or vertex-only contact, holes) depends on the subset of cells.",
  ["mesh/MshMesh_Imp.hpp", "mesh/MshElement_Imp.hpp", "mesh/MshFace_Imp.hpp"],
  [("generateFaces/extractBoundary", "mesh/MshMesh_Imp.hpp")])

p("M03", "Merging, renumbering and cleaning preserve the mesh",
  "Joining meshes and merging coincident nodes yields a mesh in which no two nodes coincide, every element keeps its geometry and the total measure is unchanged; removing dangling nodes removes exactly the unreferenced ones. "
  "Renumbering gives identifiers 0..n-1 without changing any element's geometry, and scaling or inverting a mesh changes only coordinates respectively orientation (inverting twice restores it). References between elements and faces survive joining and renumbering.",
  H, "every sequence of join/merge/renumber/clean/transform operations up to a depth starting from small meshes with coincident, dangling and non-contiguous nodes",
  "Tests merge one pair of meshes; interactions between merge, clean and renumber (stale identifier maps) appear only in sequences.",
  ["mesh/MshMesh_Imp.hpp"],
  [("addMesh/mergeNodes/removeDanglingNodes/renumber", "mesh/MshMesh_Imp.hpp")])

p("M04", "Structured meshing fills the shape with a conforming valid mesh",
  "Meshing a segment, quadrilateral or hexahedral box with given divisions produces the documented number of elements of the requested kind, nodes exactly on the lattice of equal divisions, every element oriented like the given shape, neighbouring elements sharing whole sides, and measures adding up to the whole; with the simplex option the quads/hexahedra are replaced by triangles/tetrahedra under the same guarantees. "
  "A bounding box with a mesh size is filled with as many cubes of that size as fit, in particular completely when its sides are multiples of the size. A mesher used again gives the mesh a fresh one would give.",
  C, "every division count up to a bound in each direction, box and skewed shapes, with and without simplex splitting, on fresh and on reused mesher objects",
  "Tests check node and element counts of single grids, not geometry, conformity or orientation.",
  ["mesh/MshBasicMesher_Imp.hpp"], [("structured generation", "mesh/MshBasicMesher_Imp.hpp")])

p("M05", "Advancing-front surface meshing tiles the polygon exactly",
  "Advancing-front triangle meshing of small simple closed planar boundaries, with or without holes and interior points, succeeds, and whenever triangle or quadrilateral meshing reports success the elements have consistent orientation, do not overlap, stay inside the domain and cover it exactly, use every boundary edge once, share whole sides with their neighbours, and (triangles) have the given interior points as nodes, whatever the mesher did before. Subdividing boundary edges or triangles keeps the geometry and the connections, and edge flipping and node relaxation keep the exact tiling.",
  C, "every simple lattice polygon up to a vertex count, a list of mesh sizes, holes and interior points, followed by every sequence of improvement passes up to a depth",
  "Tests compare element counts of a few domains; overlap, coverage and orientation are never checked.",
  ["mesh/MshTriangleMesher_Imp.hpp", "mesh/MshQuadrilateralMesher_Imp.hpp"],
  [("advancing front", "mesh/MshTriangleMesher_Imp.hpp"), ("quad front", "mesh/MshQuadrilateralMesher_Imp.hpp")])

p("M06", "Advancing-front volume meshing fills the surface exactly",
  "Tetrahedral meshing of small simple closed triangulated surfaces facing outwards (mesh size comparable with the surface triangles) succeeds, and whenever it reports success every tetrahedron has positive volume, the volumes add up to the enclosed volume, neighbours share whole sides, the boundary of the result is the given surface and the given interior points are nodes, whatever the numbering and whatever the mesher did before. 2-3 and 3-2 flips and node relaxation keep those guarantees, keep the boundary nodes, never lower the least element quality, do not depend on where the mesh lies, and a flip that improves the mesh is made.",
  C, "lattice tetrahedra, bipyramids, all polycubes up to a size with all or many choices of surface diagonals, mesh sizes, numberings, interior points and histories, followed by every sequence of flips and relaxations up to a depth",
  "Tests compare one element count; volume filling and conformity are never checked.",
  ["mesh/MshTetrahedronMesher_Imp.hpp"],
  [("advancing front in 3D", "mesh/MshTetrahedronMesher_Imp.hpp")])

p("M07", "Extruding a surface mesh sweeps out area times height",
  "Extruding a planar triangle or quadrilateral mesh by a given number of layers of given thickness yields one positively oriented prism or hexahedron per surface element and layer, with every layer node exactly above its surface node, and the swept volume equals area times height; the surface mesh moves along with the front, and after merging nodes the layers and neighbours share whole sides.",
  C, "every small surface mesh of a catalogue, every layer count up to a bound, several thicknesses and identifier numberings",
  "Tests check one element count.",
  ["mesh/MshExtrudedMesher_Imp.hpp"], [("layer extrusion", "mesh/MshExtrudedMesher_Imp.hpp")])

p("M08", "Mesh adjacency queries answer exactly",
  "Asking which elements use a node, or which elements share two nodes, returns exactly the incident elements, once each, for any numbering and storage order of nodes and elements; an unknown node has none, and asking again gives the same answer.",
  C, "every subset of cells of small grids under several numberings, every node and node pair queried",
  "Tests query one mesh with ascending numbering.",
  ["mesh/MshMeshQuery_Imp.hpp"], [("elementsSharingNode(s)", "mesh/MshMeshQuery_Imp.hpp")])

p("M09", "Element quality is a similarity invariant between 0 and 1",
  "The quality of a triangle, quadrilateral or tetrahedron is 1 for the ideal shape, never exceeds 1, is 0 (not positive) for collapsed shapes, and does not change under translation, uniform scaling, rotation or relabelling that keeps the shape, nor depend on what the object held before; a prism's quality is the mean of that of its two triangles.",
  I, "every lattice triangle, quadrilateral and tetrahedron, with every quarter-turn rotation, scale and cyclic order",
  "No test covers more than one or two shapes.",
  ["mesh/MshTriangle_Imp.hpp", "mesh/MshQuadrilateral_Imp.hpp", "mesh/MshTetrahedron_Imp.hpp"],
  [("calculateQuality", "mesh/MshTriangle_Imp.hpp")])

# ---------------------------------------------------------------- finite volume mesh
p("F01", "A finite-volume mesh is a closed partition of the solid",
  "Converting a conforming solid mesh to a finite-volume mesh gives one control volume per cell; each interior side is one face shared by exactly its two cells and each boundary side one face of one cell; the control volumes' volumes are the exact cell volumes and add up to the total. "
  "For every control volume the outward area vectors of its faces sum to zero, outward meaning away from the cell for the owner and reversed for the neighbour. "
  "Identifiers, indices and lookups stay mutually consistent through any additions and removals of faces and cells, and the search for boundary faces near a point returns exactly those whose centroid is closer than the given distance.",
  C, "every face-connected subset of cells of small hexahedral, tetrahedral and prism grids",
  "Tests check total volume of one grid; closedness per cell and sharing are not checked.",
  ["fvm/FvmMesh_Imp.hpp", "fvm/FvmControlVolume_Imp.hpp", "fvm/FvmFace_Imp.hpp"],
  [("FvmMesh set", "fvm/FvmMesh_Imp.hpp")])

p("F02", "Clipping a finite-volume cell conserves volume",
  "Clipping a control volume to a requested volume fraction leaves exactly that fraction of its volume on the non-positive side of the reported plane and keeps the unclipped volume available, whatever clips were made before on the same cell.",
  H, "every direction of a lattice, every fraction of a grid, every sequence of up to three successive clips on one object",
  "Tests clip once per object.",
  ["fvm/FvmControlVolume_Imp.hpp", "fvm/FvmMesh_Imp.hpp", "geometry/GeoPolyhedron_Imp.hpp"],
  [("control volume clip", "fvm/FvmControlVolume_Imp.hpp")])

# ---------------------------------------------------------------- linear systems and equations
p("S01", "Linear systems form a vector space of equations",
  "Adding, subtracting or scaling (by numbers or row by row) linear systems, and adding or subtracting a right-hand side, acts on matrix and right-hand side componentwise as linear algebra prescribes (a number is added to the diagonal and to every right-hand side): the equation (A x = b) combined by any expression equals the same expression evaluated on dense matrices and vectors. "
  "The operands of an operator are left unchanged and a result is never declared symmetric when it is not.",
  H, "every expression (operation sequence) up to a depth over small integer systems, against a dense reference",
  "Operators are only exercised through whole solves in tests.",
  ["sle/SleSystem_Imp.hpp"], [("operator+,-,* and assignment", "sle/SleSystem_Imp.hpp")])

p("S02", "Solving returns the solution of the system",
  "For every non-singular system of the declared matrix kind (dense: any; sparse: diagonally dominant; symmetric: positive definite) the solver returns the vector that satisfies the equations, leaves the system unchanged and gives the same answer when called again.",
  I, "every small integer matrix of bounded entries that is non-singular (and diagonally dominant or positive definite where the kind requires it), every small right-hand side, every declared kind",
  "Tests solve a few systems from PDE examples.",
  ["sle/SleSystem_Imp.hpp"], [("solve by matrix type", "sle/SleSystem_Imp.hpp")])

p("S03", "Fixed values are honoured and the remaining equations are solved",
  "Solving an equation over a field with prescribed values at some nodes yields those values at those nodes and satisfies the unmodified discrete equation at every other node, whether values are imposed by penalty (within the penalty's accuracy; the finite-difference route) or by elimination (the finite-element route). "
  "Sources enter the right-hand side at their node, and the result does not depend on the order in which conditions were set.",
  C, "every subset of fixed nodes, value assignment and source placement on small 1D/2D meshes, in both imposition modes and all orders of setting",
  "Tests fix the ends of a bar and compare with a loose tolerance in one mode.",
  ["pde/PdeEquation_Imp.hpp", "pde/PdeField_Imp.hpp"],
  [("penalty/elimination", "pde/PdeEquation_Imp.hpp")])

# ---------------------------------------------------------------- discretisation
p("D01", "Finite-difference operators are exact on polynomials",
  "On a line grid of any size and spacing the finite-difference second derivative is exact at interior nodes for polynomials up to degree three and the first derivative up to degree two, and the second derivative annihilates constants in every row. "
  "A free end mirrors its neighbour and a fixed end sees its value one spacing outside; the time operator is the difference of new and old values, the old value of a fixed node being its fixed value; operators leave the field unchanged. "
  "Steady conduction between fixed ends is linear along the grid the mesher makes, whatever its direction and length.",
  C, "every grid size up to a bound, every spacing of a list, every monomial up to the order, every set of fixed ends",
  "Tests compare one solved problem with an analytical solution at a loose tolerance.",
  ["pde/fdm", "fdm/FdmGrid_Imp.hpp"], [("FDM operators", "pde/fdm")])

p("D02", "Finite-volume operators conserve and are exact on linear fields",
  "The finite-volume operators are balances per unit volume of each cell. The Laplacian exchanges equal and opposite amounts between neighbouring cells, vanishes on constants wherever no value is prescribed, takes prescribed face values in with the exact one-sided conductance, and is zero for every linear field on orthogonal cells of any spacing; steady conduction then reproduces the linear field. "
  "The divergence sums outward face areas times face averages and prescribed values; the time operator is the difference of new and old cell values. Numbering, and conditions on interior faces, have no influence, and the operators leave the field unchanged.",
  C, "every face-connected subset of cells of small orthogonal grids with unequal spacings, all boundary-type assignments on small grids, all linear fields of a basis",
  "Tests compare one solved problem.",
  ["pde/fvm"], [("FVM operators", "pde/fvm")])

p("D03", "Finite-element matrices satisfy their exact identities",
  "For every non-degenerate beam, triangle, convex quadrilateral, positively oriented tetrahedron, prism and hexahedron element (hexahedron corners row by row), the capacity matrix is symmetric, positive definite and sums to the element's measure times thickness over the time step, the diffusion matrix (minus the library's Laplacian) is symmetric, positive semi-definite, annihilates constants only and gives the exact flux and energy of every linear field, with the beam's diffusion coefficient and the thickness of surface elements as factors; sources set on nodes (and on edges of triangles and quadrilaterals) arrive at exactly those nodes with the given total. Entries equal the exact integrals for beams, triangles, tetrahedra and affine shapes, and follow rigid motion and updating twice.",
  I, "every element shape over a small lattice plus distorted shapes, every admissible relabelling, every basis linear field",
  "Tests check one shape per element type.",
  ["fem/FemTriangle_Imp.hpp", "fem/FemQuadrilateral_Imp.hpp", "fem/FemTetrahedron_Imp.hpp", "fem/FemTriangularPrism_Imp.hpp", "fem/FemHexahedron_Imp.hpp", "fem/FemBeam_Imp.hpp", "fem/thermal"],
  [("element rebuild", "fem/FemQuadrilateral_Imp.hpp")])

p("D04", "Assembled operators do not depend on how the mesh is numbered",
  "Assembling any finite-element operator (generic, thermal, flow or structural time derivative, Laplacian, divergence, gradient, source, over the element types it implements) or finite-volume operator over a mesh gives the same operator up to the corresponding row and column permutation whatever identifiers and storage order nodes and elements have, equals the sum of the element contributions, and the right side of a time derivative is its matrix times the field.",
  C, "every operator, every element type, every permutation of small meshes' node and element storage order, contiguous and non-contiguous identifiers",
  "Tests always number from 0 in storage order, where identifier and index coincide.",
  ["pde/fem/generic", "pde/fem/thermal", "pde/fem/flow", "pde/fem/structural", "pde/fvm"],
  [("assembly loops", "pde/fem")])

p("D05", "Structural elements resist only deformation",
  "The stiffness matrix of every non-degenerate constant-strain triangle (plane stress, any thickness, either direction) and positively oriented tetrahedron is symmetric and positive semi-definite, produces no force for rigid translations and infinitesimal rotations and for nothing else, gives the exact elastic energy for every uniform strain state, for every admissible elastic modulus and Poisson ratio, and follows a relabelling of the corners.",
  I, "every lattice element shape, every basis rigid motion and uniform strain, a list of materials",
  "No test covers structural elements.",
  ["fem/structural"], [("constant-strain elements", "fem/structural")])

p("D06", "Flow elements are consistent with the derivatives they stand for",
  "For every anticlockwise flow triangle in a plane of constant z and every positively oriented flow tetrahedron the capacity, diffusion and gradient matrices equal the exact integrals of the shape functions and their derivatives (times thickness), and the convection matrix equals the exact integral of the shape function times the interpolated velocity along the gradient, less half the time step times the second-order streamline term of the mean velocity; constants are in the kernel of all but the capacity matrix. The assembled time derivative, Laplacian, gradient and convection operators of a mesh are the sums of these, for every numbering.",
  I, "every lattice triangle and tetrahedron with every basis velocity and linear field",
  "One test solves a hydrostatic problem.",
  ["fem/flow", "pde/fem/flow"], [("flow element matrices", "fem/flow")])

p("D07", "Quadrature rules integrate polynomials exactly",
  "Every tabulated integration rule on the line, triangle, quadrilateral, tetrahedron, prism and hexahedron integrates every polynomial up to the degree it is meant for exactly (up to the published digits), its points lie in the reference element, and integrating the constant gives the element's reference measure.",
  I, "every rule and every monomial up to its degree", "No test integrates a polynomial.",
  ["integration"], [("Gauss point tables", "integration")])

p("D08", "Thermal surface conditions add exactly the surface integral",
  "Prescribing convection (film coefficient, ambient temperature) or linearised radiation on an edge of a thermal triangle or quadrilateral, or along a thermal beam, adds exactly the surface integral over edge times thickness (length times perimeter) to Laplacian and source, consistently with the conduction term, only at the nodes of that edge, cumulatively, and an element at ambient temperature exchanges nothing. Conditions given to elements of a field reach exactly the equations of those nodes through the thermal Laplacian, whatever the numbering.",
  I, "every edge/face of every lattice element shape and every coefficient of a list", "Only the first edge of one shape is tested.",
  ["fem/thermal", "fem/FemEdge_Imp.hpp", "fem/FemFace_Imp.hpp"], [("edge/face conditions", "fem/thermal")])

p("D09", "Boundary-element coefficients satisfy the Laplace identities",
  "For every triangular panel and every point not too close to it for the quadrature rule, the boundary-element influence coefficients equal minus the solid angle over 4 pi and the integral of 1/r over 4 pi (exactly for the panel's own centre), so over every closed surface they sum to one half at panel centres, one inside and zero outside; the assembled system is made of these coefficients row by row whatever the numbering of the panels, prescribed panels enter with their coefficient over their area on both sides, and equal prescribed values give that value everywhere.",
  C, "a catalogue of closed surfaces and all relabellings of each panel", "One coefficient is tested.",
  ["bem/BemTriangle_Imp.hpp", "pde/bem"], [("influence integrals", "bem/BemTriangle_Imp.hpp")])

# ---------------------------------------------------------------- particles
p("K01", "Smoothing kernels are normalised, local and mutually consistent",
  "Every smoothing kernel is non-negative, monotonically decreasing, zero outside its support and integrates to one in one, two and three dimensions for every smoothing length (the Gaussian up to its truncation at three smoothing lengths); the gradient and Laplacian it returns are the derivatives of its value in the library's scaled convention: gradientW = -h^2 grad W and laplacianW = h (dim W - r.grad W).",
  I, "every kernel, dimension, smoothing length of a list and radius on a fine grid including support borders", "Tests check a few values.",
  ["sph"], [("kernel evaluation", "sph/SphKernel_Imp.hpp")])

p("K02", "Particles move with their own velocity and see exactly their neighbours",
  "Advancing particles by a time step moves each one by its own velocity components times the step (re-entering at the opposite side of a cyclic boundary); the density of a particle is the kernel-weighted sum of the masses of exactly the particles within the support, and its temperature changes by the step times its conductivity times the sum over those particles of mass over density times the temperature difference times the kernel's Laplacian, all evaluated at the start of the step, with fixed values kept; so results do not depend on particle order or numbering, masses scale out, and temperatures stay within their initial range for small steps.",
  C, "every small particle configuration on a lattice with distinct velocity components, every step of a list", "No test covers particles.",
  ["solvers/SphParticles_Imp.hpp"], [("advection and neighbour search", "solvers/SphParticles_Imp.hpp")])

# ---------------------------------------------------------------- input/output
p("P01", "A Gmsh file round trip preserves mesh and field",
  "A Gmsh file saved from a field over any mesh is well formed and holds exactly its nodes, elements (types and connectivity) and node or element values to the written precision, whatever the identifiers; loading it gives back the mesh and saving that gives the same content; files of other programs with tags, extra sections and unsupported elements load with their own identifiers; a missing or truncated file is reported, and any sequence of saves and loads leaves the mesh and files that its history implies.",
  C, "every small mesh mixing element types with contiguous and non-contiguous identifiers, every value of an extreme-value list, save/load sequences up to a depth", "Tests save one mesh and check the return code.",
  ["post/PosGmsh_Imp.hpp"], [("save/load", "post/PosGmsh_Imp.hpp")])

p("P02", "A VTK file describes exactly the mesh and field that was saved",
  "The VTK file written for a field over any mesh is well formed (declared counts match the content, every cell has the points its type needs), and an independent reader recovers the same points, cells, cell types and node values; saving changes neither the mesh nor a second file.",
  C, "every small mesh mixing element types with contiguous and non-contiguous identifiers, every value of an extreme-value list", "Tests check only the return code.",
  ["post/PosVtk_Imp.hpp", "post/PosGnuplot_Imp.hpp"], [("save", "post/PosVtk_Imp.hpp")])

p("P03", "QuickMesh files and Gnuplot tables hold exactly the mesh and values",
  "Saving a tetrahedral mesh as a QuickMesh file and loading it back, into an empty or a used field, gives the same nodes and tetrahedra whatever the identifiers; a Gnuplot table has one row per node or element, in order, with its position and value; neither changes the mesh that is saved.",
  C, "every small tetrahedral mesh and every small mixed mesh with contiguous and non-contiguous identifiers, extreme coordinates", "Tests check only the return code of one Gnuplot file.",
  ["post/PosQuickMesh_Imp.hpp", "post/PosGnuplot_Imp.hpp"], [("save/load", "post/PosQuickMesh_Imp.hpp"), ("save", "post/PosGnuplot_Imp.hpp")])

# ---------------------------------------------------------------- STL
p("T01", "An STL round trip preserves the triangles",
  "Saving any non-empty set of facets as text or binary and loading the file back yields the same facets in order, with normals and vertices equal to the written precision (and attribute bytes, in binary), and reports counts and bounding box correctly; the facet table always holds exactly the facets the history of additions and removals leaves; missing, empty and truncated files and unwritable paths are reported as failures, never read as facets the file does not hold.",
  C, "every small facet set (0 to several facets), both formats, save/load/reset sequences up to a depth, every truncation of a small file", "Tests load one sample file.",
  ["stl/StlFile_Imp.hpp", "stl/StlUtils_Imp.hpp"], [("load/save", "stl/StlUtils_Imp.hpp")])

p("T02", "STL connectivity is mutual and converts to a faithful mesh",
  "Generating connectivity for a facet set whose edges are used at most twice links two facets along an edge exactly when they share that edge (both end points), mutually and with the right opposite vertex, and leaves the other edges unlinked; for a consistently oriented set the mesh produced has one triangle per facet with the same corners and shares one node around each fan of linked facets about a vertex; building from a triangle mesh gives back its triangles.",
  C, "every subset of facets of small closed surfaces and every vertex rotation of the facets", "Tests check a count on a file.",
  ["stl/StlUtils_Imp.hpp", "stl/StlFile_Imp.hpp"], [("generateConnectivity/mesh", "stl/StlUtils_Imp.hpp")])

p("T03", "Orientation repair makes a surface consistently oriented",
  "Repairing orientation from a pivot facet makes every pair of neighbouring facets of the pivot's connected orientable surface consistently oriented, leaves the pivot, the other surfaces and all facet positions unchanged and the connectivity valid; asking for an outward or inward orientation of a closed surface makes its enclosed volume positive or negative; inverting a facet twice restores it.",
  C, "every subset of inverted facets of small closed surfaces and every pivot", "Tests cover one case.",
  ["stl/StlUtils_Imp.hpp"], [("setOrientation/invertFacet", "stl/StlUtils_Imp.hpp")])

p("T04", "STL cleaning removes exactly the redundant facets",
  "Removing duplicate facets leaves each distinct triangle (same three vertices in any order, within the tolerance) once, and removes nothing else; removing invalid facets removes exactly those with an edge shorter than the tolerance or with all edges marked naked; the remaining facets, their identifiers, order and geometry are untouched, and repeating the operation changes nothing.",
  H, "every multiset of facets over a small catalogue containing duplicates, rotated duplicates and slivers, and every sequence of cleaning operations up to a depth", "Tests cover one file.",
  ["stl/StlUtils_Imp.hpp"], [("removeDuplicateFacets/removeInvalidFacets", "stl/StlUtils_Imp.hpp")])

# ---------------------------------------------------------------- CSG
p("C01", "Boolean solids obey set algebra",
  "The union, difference and intersection of two closed solids are closed, outward-oriented solids whose volumes are the exact set volumes and obey inclusion-exclusion, also when the solids touch, share planes, or are empty; the operands are unchanged, and a solid combined with a disjoint, containing or empty one gives the trivial result.",
  C, "every pair of lattice boxes (disjoint, nested, overlapping, touching) with every operation, chains of two operations, pairs of non-convex bodies, spheres and cylinders, empty solids", "No test covers boolean solids.",
  ["csg/CsgBoolean_Imp.hpp", "csg/CsgBspNode_Imp.hpp", "csg/CsgCube_Imp.hpp", "csg/CsgSphere_Imp.hpp", "csg/CsgCylinder_Imp.hpp"],
  [("BSP clip/invert/merge", "csg/CsgBspNode_Imp.hpp")])

# ---------------------------------------------------------------- solvers
p("V01", "The lattice-Boltzmann solver follows its scheme and keeps its rest state",
  "A lattice-Boltzmann cavity at rest stays at rest for any set of wall nodes. After every step, for every history of setting walls, lid velocities, densities and inner velocities, the velocities are those of the D2Q9 scheme with single relaxation, full reversal at wall nodes and non-equilibrium extrapolation at the lid; reversing the lid mirrors the flow, and velocities stay bounded in long runs.",
  H, "every small cavity size with every set of inner wall nodes, lid velocities and relaxation times of a list, every history of steps and changes up to a depth", "No test covers it.",
  ["solvers/LbmLidDrivenSolver_Imp.hpp"], [("collide/stream", "solvers/LbmLidDrivenSolver_Imp.hpp")])

p("V02", "The incompressible flow solver conserves mass in every cell",
  "After each time step of the incompressible (PISO) solver on hexahedral finite volumes, the face fluxes of every cell balance to solver tolerance; velocities, pressures, boundary values and fluxes are those of one step of the documented semi-implicit projection scheme (implicit linearised central convection, diffusion, gravity and pressure gradient, then pressure corrections) whatever the numbering of cells and faces; fluid at rest without forces stays at rest; gravity alone in a closed box produces exactly the hydrostatic pressure differences; and no-slip or moving walls, inlet velocities, inlet pressures and outlets get the prescribed values.",
  C, "every small box grid, gravity direction, step count and boundary assignment of a list", "One hydrostatic case is tested.",
  ["solvers/FvmPisoSolver_Imp.hpp"], [("momentum, pressure, flux correction", "solvers/FvmPisoSolver_Imp.hpp")])

p("V03", "The two-phase solver keeps fractions bounded and mixes properties",
  "Phase fractions stay within 0 and 1 after every step, uniform fractions stay uniform, a still fluid keeps its fractions, the flow is advanced with the fraction-weighted averages of the densities and viscosities of the two phases, and the amount of a phase changes only by what crosses the boundary as long as no cell reaches 0 or 1.",
  C, "every 0/1/half initial fraction assignment on small grids, several steps", "No test covers it.",
  ["solvers/FvmVofSolver_Imp.hpp"], [("fraction transport", "solvers/FvmVofSolver_Imp.hpp")])

p("V04", "The temperature solver obeys the maximum principle and exact steady states",
  "Each step of the flow solver with temperature advances temperatures by the implicit upwind convection and conduction balance with the cells' own density, specific heat and conductivity; temperatures stay within the range of initial and boundary values, a uniform field with matching boundaries stays uniform, and the steady state between two walls is the linear profile, for any cell size and material.",
  C, "every small box grid with unequal cell sizes, boundary assignments and materials of a list", "No test covers it.",
  ["solvers/FvmTemperatureSolver_Imp.hpp"], [("temperature equation", "solvers/FvmTemperatureSolver_Imp.hpp")])

p("V05", "The finite-element flow solver advances its splitting exactly",
  "Each step of the two- and three-dimensional fractional-step (CBS) flow solver on triangles and tetrahedra gives the velocities and pressure of the documented splitting (implicit momentum with stabilised convection, viscosity and gravity; pressure from the divergence; correction by the pressure gradient; fixed values honoured in every stage), for every mesh numbering, boundary assignment, material, gravity and time step. A fluid at rest stays at rest, also when gravity was never set; in a tank the pressure is density times gravity times depth on any mesh; changing density and viscosity together scales only the pressure.",
  C, "every assignment of boundary kinds to the sides of small boxes, grids, numberings, materials, gravities, starts and time steps of a list", "One hydrostatic case on one grid is tested, with a result that was right by coincidence.",
  ["solvers/FemCbsSolver_Imp.hpp"], [("velocity, pressure, correction", "solvers/FemCbsSolver_Imp.hpp")])

# ---------------------------------------------------------------- analytical
p("A01", "Function expressions evaluate, and their roots are found",
  "A function built from an expression text evaluates to the mathematical value, where it exists, for every assignment of its variables and after every history of definitions, redefinitions, removals and changes of the text; explicitly given variables take precedence and leave the definitions untouched, and an invalid expression or one with an undefined variable evaluates to not-a-number. Bracketed root search stays in the bracket, respects the iteration limit, reports its iterations, and on convergence returns a point within the tolerance of a root.",
  H, "every expression of a small grammar up to a depth, every variable definition history, every bracket of a grid over a catalogue of functions", "One expression is evaluated.",
  ["analytical/AnaFunction_Imp.hpp"], [("evaluate/root/brent", "analytical/AnaFunction_Imp.hpp")])

p("A02", "Reference analytical solutions satisfy their problems",
  "Each closed-form heat-conduction and flow solution satisfies its boundary and initial conditions and its differential equation, agrees with independent expansions and with the lower-dimensional solution it reduces to, and tends to the steady solution for long times; the beam with convection is accurate for any length and film coefficient.",
  I, "every solution on a grid of positions and times", "One position per solution is tested.",
  ["analytical/AnaTemperature_Imp.hpp", "analytical/AnaFlow_Imp.hpp"], [("series evaluation", "analytical/AnaTemperature_Imp.hpp")])

p("A03", "Materials and boundary conditions return what was last given",
  "A material returns for every property, and a boundary condition for every condition, the number last given for it (zero when none was), and the value of the function last given for it at the given variables; giving one property, or reading, leaves all others and any copy unchanged, and type and location are those last set.",
  H, "every sequence of settings and copies up to a depth for every pair of properties or conditions", "No test covers material functions or histories.",
  ["material/MatMaterial_Imp.hpp", "pde/PdeBoundaryCondition_Imp.hpp"], [("property maps", "material/MatMaterial_Imp.hpp")])
