# id: (oracle, not claimed / false alarms corrected)
N = {
'G01': ("closed-form measures in long double / exact integers (shoelace, determinant, divergence theorem)", "Centroids of polygons and polyhedra are what the library defines (mean of vertices / face centroids), not area centroids."),
'G02': ("independent Sutherland-Hodgman clip and divergence-theorem volume; both sides add up; planarity, closedness and orientation of the result", "An early closedness test that matched edges exactly raised false alarms on vertices that coincide within the tolerance; edges are now matched within the library's own tolerance."),
'G03': ("volume of the clipped part by the G02 oracle against the requested fraction; kept side; monotone in the fraction", "An expectation on the number of iterations was dropped (not a promise). Ending on a grazing plane leaves an open cap: known finding."),
'G04': ("a plain list of boxes scanned linearly", ""),
'G05': ("a plain list of points scanned linearly", ""),
'G06': ("minimum/maximum over points; set-theoretic predicates by coordinate comparison", ""),
'G07': ("exact integer predicates on the lattice (orientation tests), brute-force distance by case analysis in long double", "Contacts within the tolerance band are asserted only in the direction the tolerance permits."),
'G08': ("gift wrapping with exact integer orientation", "CGeoConvexHull computes planar hulls only; the property was restated accordingly."),
'G09': ("componentwise arithmetic and known identities", ""),
'G10': ("distance of the given points to the reported centre", ""),
'G11': ("graph components and loop counting; exact removal rule", ""),
'G12': ("volumes and areas add up, pieces inside, pairwise disjoint", "Triangulating polygons is claimed for strictly convex ones only: the code is a fan."),
'M01': ("std::map model of the mesh after every operation", ""),
'M02': ("sides matched by sorted node identifiers in a map", ""),
'M03': ("geometric multiset of elements (corner coordinates) before and after, plus face relations", "Translating was dropped (no such operation on the mesh itself). mergeElements deliberately removes all coincident elements: not claimed."),
'M04': ("cell volumes, exact cover by face cancellation, M02's pairing", "Orientation is that of the shape handed in (an inverted box gives inverted cells, as the tests do)."),
'M05': ("exact tiling by oriented-edge cancellation, area sum and positive element areas (harness/plane.hpp); the flip graph of all lattice triangulations is explored", "Zero tolerance (rounding breaks it; smallest claimed 1e-6), collapseEdges, success and interior nodes of quadrilaterals are not claimed; limits on elements and stops may end in the documented exception. The clock-driven progress callback is made deterministic with setIntervals. A sliver test was loosened to areas >= -1e-9 after relaxing collinear neighbours."),
'M06': ("exact filling by oriented-triangle cancellation, volume sum and positive volumes (harness/space.hpp); improving flips found by enumeration", "A first version had the tetrahedron orientation the wrong way round (false alarm, oracle corrected: the library lists the base facing outwards). Success is claimed for mesh sizes comparable with the surface spacing and at most one interior point."),
'M07': ("volume = area x height, exact cover by face cancellation", "Neighbouring extruded layers share nodes only after mergeNodes."),
'M08': ("brute-force scan of all elements", ""),
'M09': ("invariance under all lattice symmetries, scalings and corner permutations; 1 for the regular shape, 0 for flat ones", ""),
'F01': ("map model of faces and control volumes; closedness (sum of outward areas) and volume by the divergence theorem", ""),
'F02': ("G02's oracle per cell; sum over the cells", ""),
'S01': ("dense matrices in long double", ""),
'S02': ("dense Gaussian elimination with rational arithmetic; residual bounds", "Iterative kinds are claimed for diagonally dominant or symmetric positive definite systems."),
'S03': ("dense elimination of the modified system", ""),
'D01': ("the operator applied to all polynomials up to its order, exactly", "The end rows of the divergence and two-dimensional grids are not claimed."),
'D02': ("hand-derived balance of every cell from its faces", "Stated per unit volume, as the library does. Sources that are not implemented were dropped."),
'D03': ("exact integrals of shape functions (integer/rational polynomials), row sums, symmetry, rigid motions", "Six-point prism rule and hexahedron corner order are known findings."),
'D04': ("sum of single-element operators scattered by a map; all renumberings", "The first oracle recomputed the operators and duplicated the code; replaced by single-element meshes."),
'D05': ("rigid motions give zero force, patch tests, symmetric positive semi-definite", "Tolerance widened for tiny tetrahedra far from the origin (cancellation, not a defect)."),
'D06': ("derivatives of linear fields; the implicit backward Taylor-Galerkin form M/dt + C - dt/2 Ks", "Clockwise or tilted triangles are not claimed."),
'D07': ("exact monomial integrals over every reference element", "The six-point prism rule is a known finding."),
'D08': ("exact surface integrals of shape functions", "Faces and flux are not implemented in the library: restated for what it offers."),
'D09': ("Gauss identity (solid angle), adaptive subdivision for the coefficients", "Tolerance graded by distance/size ratio with a factor 3-4 over the measured quadrature error; the constant-solution test needs 12 panels or more; a test with linear potentials was dropped (the discretisation is not exact for them)."),
'K01': ("fine numerical integration, finite differences, monotonicity", "Gradient and Laplacian follow the library's scaled convention. Laplacian of the convex kernel: known finding."),
'K02': ("all-pairs model", "Kernels wider than the search radius: known finding."),
'P01': ("independent parser and writer; every truncation of every file", "Unknown sections are skipped; field values are not read back by the library."),
'P02': ("independent VTK parser", "Corner order 0,2,1,3 of tetrahedra is deliberate (VTK convention)."),
'P03': ("independent parser", ""),
'T01': ("independent STL parser/writer, both formats; every truncation", "Normals are kept as stored; empty files are rejected; files whose first bytes could be either format are excluded."),
'T02': ("edge map by sorted vertex keys", "Claimed for edges used at most twice; mesh sharing per vertex fan of consistently oriented sets."),
'T03': ("breadth-first orientation over the edge map; signed volume", ""),
'T04': ("multiset of facets", "Which duplicate survives is not claimed. Remeshing of facets (splitting, collapsing) is not claimed."),
'C01': ("exact lattice occupancy of cells: volume, membership probes, closedness", "Found the unset BSP plane only with stack dirtying and -ftrivial-auto-var-init=pattern."),
'V01': ("re-implementation of the published D2Q9 BGK step on plain arrays", "Density is not observable through the interface, so conservation is stated through velocities."),
'V02': ("dense reference of one PISO step (harness/piso.hpp) from the discretisation formulas; continuity per cell", "Walls without a boundary type and slip walls are not claimed; dt = 0 is steady only at rest."),
'V03': ("bounds, total content, mixing formulas, V02's reference with variable density", "CICSAM's donor choice under reversal and the clamping loss were observed and are not claimed."),
'V04': ("dense reference; discrete maximum principle; linear profiles", "Face-to-face conductivity averaging cannot be observed through the interface."),
'V05': ("dense reference of the three stages on P1 simplices with own element matrices; hydrostatic bound of one cell; density scaling", "Steps whose linear systems are conditioned worse than 1e6 or whose speed exceeds 50 are not compared; stability of the scheme is not claimed."),
'A01': ("own recursive evaluator; sign scan and bisection", "exprtk folds 0/x to 0 and undefined values are excluded; 'minimisation' was dropped, the code finds minima only within brackets that it does not promise to cover. NaN expectations dropped."),
'A02': ("residual of the differential equation by high-order differences; boundary values; tail bounds of truncated series", ""),
'A03': ("std::map model", ""),
}
