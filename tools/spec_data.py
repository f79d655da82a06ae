TESTS = "The existing tests evaluate a handful of fixed inputs"

prop("P01", "Axis-aligned boxes enclose, measure and order points exactly",
     "A box built from points, from other boxes or for a geometric primitive is the smallest axis-aligned box holding them. "
     "Containment, intersection, corners, extents, scaling and growing agree with the box as a closed point set, and the closest "
     "(furthest) point returned lies in the box with no point of the box nearer (further), the reported distances being those; a box whose corners are out of order is refused.",
     ["inputs"], "all box corners, query points, scale factors and up to 4 generating points, in 1, 2 and 3 dimensions",
     TESTS + " and proptest samples; degenerate (flat) boxes, points on faces and equidistant points are measure-zero for sampling.",
     [G + "lib.rs", G + "primitives/triangle.rs", G + "primitives/quad.rs", G + "primitives/tetrahedron.rs",
      G + "primitives/hexahedron.rs", G + "polygon.rs"],
     [("enclose/from_points", "fenris-geometry/src/lib.rs AxisAlignedBoundingBox"),
      ("closest_point_to / furthest_point_to", "fenris-geometry/src/lib.rs"),
      ("BoundedGeometry impls", "fenris-geometry/src/primitives/*.rs")],
     ["sx_geo"],
     ["AxisAlignedBoundingBox::{new,enclose,from_points,extents,max_extent,center,uniformly_scale,contains_point,intersects,"
      "grow_uniformly,corners_iter,closest_point_to,dist_to,dist2_to,furthest_point_to,max_dist2_to,max_dist_to}",
      "BoundedGeometry for Triangle, Quad2d, SimplePolygon, Tetrahedron, Hexahedron, AABB"],
     "coordinates are arbitrary reals in [-1024, 1024], dimensions 1-3, at most 4 points.",
     "floating-point rounding; more than 4 points; hexahedron tightness.")

prop("P02", "Line, segment, plane and disk queries return the exact geometric answer",
     "Closest points and projections are optimal over the whole line or segment; intersections of lines, segments, half-planes, "
     "planes and disks return parameters whose points lie on both objects, are reported exactly when a common point exists, and "
     "cover the whole intersection. Half-space distances are signed plane distances and derived frames are orthonormal.",
     ["inputs"], "all positions, directions, radii and query points",
     TESTS + "; end-point clamping, tangency, containment and near-parallel cases need specific alignments.",
     [G + "primitives/line.rs", G + "primitives/half_space.rs", G + "primitives/plane.rs", G + "util.rs"],
     [("closest_point_parametric", "fenris-geometry/src/primitives/line.rs"),
      ("intersect_*_parametric", "fenris-geometry/src/primitives/line.rs"),
      ("compute_orthonormal_vectors_3d", "fenris-geometry/src/util.rs")],
     ["sx_geo"],
     ["LineSegment::{closest_point*,intersect_*,segment_from_parameters,midpoint,length,reverse,...}",
      "Line::{project_point*,intersect*,intersect_disk*,intersect_plane_parametric}", "HalfSpace::*", "Plane::*",
      "compute_orthonormal_vectors_3d"],
     "coordinates in [-64, 64] (normals from vectors of norm > 1/4), exact reals; parallel segment pairs are assumed away.",
     "rounding; overlapping collinear segments.")

prop("P03", "Clipping convex polygons computes the set intersection",
     "Clipping a convex polygon by a half-plane or another convex polygon, a segment by a convex polygon, and a planar 3D polygon "
     "by a half-space yields exactly the common point set: every vertex of the result lies in both, every common point lies in the "
     "result, and the two sides of a cut add up to the whole. Empty and degenerate polygons (points, segments, repeated vertices) contain exactly their points. Triangulations cover the polygon exactly.",
     ["inputs"], "all half-planes, half-spaces, segments and translations, and a universally quantified member point",
     TESTS + " and approximate areas; cuts through vertices and along edges are measure-zero for sampling.",
     [G + "polytope.rs", G + "polygon.rs", G + "primitives/line.rs"],
     [("Sutherland-Hodgman clip", "fenris-geometry/src/polytope.rs ConvexPolygon::intersect_halfplane/intersect_polygon"),
      ("3D clip", "fenris-geometry/src/polygon.rs SimplePolygon3d::intersect_half_space"),
      ("segment clip", "fenris-geometry/src/primitives/line.rs intersect_polygon")],
     ["sx_geo"],
     ["ConvexPolygon::{half_planes,contains_point,intersect_halfplane,intersect_polygon,triangulate}",
      "LineSegment2d::intersect_polygon", "SimplePolygon3d::intersect_half_space", "Convex::{triangulate,triangulate_at_point}", "ConvexPolygon::{is_empty,is_point,is_line_segment,edges}"],
     "arbitrary triangles and half-planes; concrete convex shapes with 3-6 sides against arbitrary half-planes; shape pairs at any "
     "translation; coordinates in [-16, 16].",
     "arbitrary polygons with more than 4 free vertices; rounding; polygons lying in the clipping plane; intersections of two polygons of which one has no area (marked as unfinished in the code, empty ones are covered).")

prop("P04", "Areas, volumes, orientation and convexity are geometrically exact",
     "Areas, signed areas, area vectors, volumes, centroids, normals and orientations of triangles, quads, polygons, tetrahedra and "
     "hexahedra equal their mathematical value, for concave quads as well. A quad is reported concave at exactly its concave corner "
     "and its split covers it by two counter-clockwise triangles.",
     ["inputs"], "all vertex positions (quads: all simple counter-clockwise ones)",
     TESTS + "; only convex quads and axis-aligned cells are sampled.",
     [G + "primitives/triangle.rs", G + "primitives/quad.rs", G + "polygon.rs", G + "lib.rs", G + "predicates.rs"],
     [("signed_area", "fenris-geometry/src/polygon.rs, primitives/triangle.rs"),
      ("concave_corner / split", "fenris-geometry/src/primitives/quad.rs"),
      ("volume from faces", "fenris-geometry/src/lib.rs compute_polyhedron_volume_from_faces")],
     ["sx_geo"],
     ["Triangle2d/3d::*", "Quad2d::{concave_corner,split_into_triangle_connectivities,split_into_triangles,area}", "Polygon2d::{signed_area,area,orientation}",
      "SimplePolygon3d::{area,area_vector}", "ConvexPolyhedron::compute_volume", "orient2d_inexact",
      "reference(), get_face, From conversions, transform_vertices, isometries of the cell shapes"],
     "arbitrary triangles, simple quads, tetrahedra, parallelepipeds and square frusta; polygons with up to 6 arbitrary vertices.",
     "hexahedra with arbitrary (non-planar) faces; rounding.")

prop("P05", "Distances, closest points, containment and solid angles are exact",
     "The distance and closest boundary point reported for polygons (non-convex ones included), triangles, quads, tetrahedra and hexahedra are attained and minimal, the sign is "
     "negative exactly inside, containment agrees with it; a segment intersects a polygon exactly if it crosses an edge or lies inside; signed distance functions have the "
     "sign, value and gradient of their shape; solid angles are exact for every distance and orientation.",
     ["inputs"], "all query points; all positions of segments in fixed directions; all circles and boxes; all distances of the corners of a seen triangle",
     TESTS + "; reflex corners, corner regions and solid angles above pi need specific positions.",
     [G + "polygon.rs", G + "primitives/triangle.rs", G + "primitives/tetrahedron.rs", G + "primitives/hexahedron.rs", G + "lib.rs", G + "sdf.rs"],
     [("closest_edge, pseudonormal_on_edge, intersects_segment", "fenris-geometry/src/polygon.rs"),
      ("ConvexPolygon3d::closest_point, ConvexPolyhedron::compute_signed_distance", "fenris-geometry/src/lib.rs"),
      ("compute_solid_angle", "fenris-geometry/src/primitives/triangle.rs"), ("eval, gradient", "fenris-geometry/src/sdf.rs")],
     ["sx_geo"],
     ["Polygon2d::{closest_edge,pseudonormal_on_edge,intersects_segment}, Distance for SimplePolygon2d, Quad2d", "Triangle2d::{query_signed_distance,distance}",
      "ConvexPolygon3d::{closest_point,compute_plane,compute_half_space}, Triangle3d::{point_orientation,distance}", "ConvexPolyhedron::{compute_signed_distance,contains_point}, Tetrahedron::distance, Hexahedron::*",
      "SdfCircle, SdfAxisAlignedBox, SdfUnion", "Tetrahedron::reference, Hexahedron::reference: containment and distance", "Triangle3d::compute_solid_angle, compute_winding_number_for_triangles_3d"],
     "concrete shapes (8 polygons, 3 faces, 2 tetrahedra, 2 hexahedra; a free-apex triangle in thorough), any query point of a box (tetrahedra: on lines and planes in quick); segments of fixed directions in general position; 7 direction triples for solid angles.",
     "other shapes; degenerate touching of segments; hexahedra with non-planar faces; rounding.")

prop("P06", "Polyhedral meshes keep topology and volume under every operation",
     "Clipping a polyhedral mesh by a half-space or convex polyhedron leaves closed, outward oriented cells whose vertices lie in both and whose volume is the volume of the intersection; "
     "triangulation fills each cell with tetrahedra, conformingly; edge splitting, selecting, concatenating, deduplicating and translating change exactly what they say; "
     "boundary faces and face-cell connectivity are exact; the volume of any part is exact; index data that does not describe faces and cells is refused.",
     ["inputs", "histories"], "all plane offsets, all box translations, all affine images, all cell selections and duplications of small meshes",
     TESTS + "; only one tetrahedron is tested.",
     [G + "polymesh.rs", G + "lib.rs"],
     [("intersect_half_space, intersect_convex_polyhedron, triangulate, split_edges, keep_cells, concatenate, dedup_faces", "fenris-geometry/src/polymesh.rs")],
     ["sx_geo"],
     ["PolyMesh::{from_poly_data,get_*,face_vertices,compute_face_cell_connectivity,find_boundary_faces,dedup_faces,concatenate,split_edges_n_times,keep_cells,translate}",
      "PolyMesh3d::{triangulate,compute_volume,intersect_half_space,intersect_convex_polyhedron}"],
     "meshes of 1-3 cubes, 1-2 tetrahedra, a cube with a pyramid, several vertex numberings, cells with missing faces, empty cells; 0-3 edge splits; affine images symbolic (volume, triangulation, splitting, selection); "
     "clipping of unit cube meshes by 4 (6) fixed normals, both sides, at any offset in [-1, 24], by a cube translated along an axis, by scaled tetrahedra.",
     "arbitrary plane normals on arbitrary meshes; rounding; non-convex cells.")

EL = "src/element/"
ELF = [EL + x for x in ("quadrilateral.rs", "triangle.rs", "tetrahedron.rs", "hexahedron.rs", "segment.rs", "prism.rs", "pyramid.rs")]

prop("P07", "Basis functions are nodal, complete and conforming on every element",
     "For every element type each basis function is one at its own reference node and zero at the others; at any reference point the "
     "basis sums to one and reproduces all polynomials the element claims; on each facet only that facet's nodes contribute, so "
     "neighbouring elements agree; reference nodes are where the documented ordering puts them.",
     ["inputs"], "all reference points (and vertex positions), for all 13 element types",
     TESTS + " (nodes and a few sampled points).",
     ELF, [("FiniteElement/ReferenceFiniteElement evaluate_basis", EL + "*.rs")],
     ["sx_elem"], ["evaluate_basis / populate_basis of Segment2d1, Segment2d2, Tri3d2, Tri3d3, Tri6d2, Quad4d2, Quad9d2, Tet4, Tet10, Tet20, Hex8, Hex20, Hex27"],
     "reference coordinates in the box [-4, 4]^d, so also outside the element; vertices arbitrary reals.",
     "rounding.")

prop("P08", "Basis gradients and geometry Jacobians are exact derivatives",
     "For every element, at every reference point and for every vertex placement, the gradients returned for the basis are the exact "
     "partial derivatives of the basis functions, and the reference Jacobian is the exact derivative of the reference-to-physical map.",
     ["inputs"], "all reference points and all vertex positions, for all 13 element types",
     "The existing tests compare with finite differences at sampled points and to loose tolerances.",
     ELF, [("gradients, reference_jacobian", EL + "*.rs")],
     ["sx_elem"], ["evaluate_basis, gradients/populate_basis_gradients, map_reference_coords, reference_jacobian of all elements"],
     "arbitrary reals; derivatives taken symbolically of the executed expression.",
     "rounding.")

prop("P09", "Element maps, inverse maps, closest points, bounds and lookups are right",
     "An element maps its reference nodes to its vertices; the inverse map returns the reference point of any physical point of an affine "
     "element, and projection leaves an orthogonal residual; the closest point is in the element and nearest; bounds, diameter and "
     "normals are those of the vertices; degenerate elements make inversion fail rather than hang; connectivity lookup returns exactly the indexed vertices, or None if an index is out of bounds.",
     ["inputs"], "all vertex positions, reference and query points",
     TESTS + "; closest points on edges, vertices and degenerate elements are rarely sampled.",
     ELF + ["src/element.rs", "src/connectivity.rs"],
     [("closest_point", EL + "triangle.rs, tetrahedron.rs"), ("map_physical_coordinates / project_physical_coordinates", "src/element.rs"),
      ("element(), populate_element_variables", "src/connectivity.rs")],
     ["sx_elem"],
     ["map_reference_coords, diameter, element_bounds, closest_point (Tri3d2, Tri3d3, Tet4)", "map_physical_coordinates, project_physical_coordinates",
      "SurfaceFiniteElement::normal", "ElementConnectivity::element / populate_element_variables for all connectivities"],
     "maps, bounds, diameters, lookups: arbitrary vertices (diameters of higher-order elements: one free vertex at a time). Closest points: six concrete triangles (two degenerate) with an arbitrary query; three "
     "concrete tetrahedra with queries on lines (quick) or planes (thorough). Inverse map and projection: concrete affine shapes at an arbitrary "
     "position (segments: arbitrary), arbitrary point.",
     "non-affine inverse maps; closest point of a tetrahedron of arbitrary shape; rounding.")

Q = "fenris-quadrature/src/"
prop("P10", "Quadrature rules integrate every polynomial up to their strength",
     "For every supported strength, the rule returned for each reference domain integrates all polynomials of that total degree exactly, "
     "has positive weights and points inside the domain; requests beyond the supported strength are refused. Gauss, Gauss-Lobatto and "
     "tensor rules have their stated degree. The canonical rules integrate each element's mass and stiffness terms exactly. Rule files are read as exactly their points and weights; incomplete lines are errors.",
     ["inputs"], "all polynomials (arbitrary coefficients) and all strengths / point counts",
     "Tests check sampled polynomials for some strengths; an entry of a table that is wrong in the sixth digit passes loose tolerances.",
     [Q + "polyquad.rs", Q + "univariate.rs", Q + "tensor.rs", "src/quadrature.rs", "src/quadrature/canonical.rs", "src/quadrature/tensor.rs", "src/quadrature/total_order.rs", "polyquad-parse/src/lib.rs"],
     [("polyquad tables", Q + "polyquad.rs"), ("gauss / gauss_lobatto", Q + "univariate.rs"), ("CanonicalMassQuadrature/CanonicalStiffnessQuadrature", "src/quadrature/canonical.rs")],
     ["sx_quad"],
     ["fenris_quadrature::polyquad::{triangle,quadrilateral,tetrahedron,hexahedron,prism,pyramid}", "univariate::{gauss,gauss_lobatto}",
      "quadrature::total_order::*", "quadrature::tensor::*", "polyquad_parse::{parse2d,parse3d}", "CanonicalMassQuadrature, CanonicalStiffnessQuadrature of 10 elements"],
     "all strengths offered (20/21/10/11/10/10 by domain), coefficients in [-1, 1], error below 1e-10 per unit coefficient; Gauss 1-20 points (60 thorough), "
     "Lobatto 2-32 (128 thorough), tensor rules up to 6 points per axis in 2D and 4 in 3D; rule files of up to 3 lines with symbolic numbers.",
     "Gauss rules with more than 60 points.")

prop("P11", "Subdivided quadrature rules integrate as the sum over the pieces",
     "Subdividing the unit interval or triangle and applying any base rule on each piece yields the composite rule: points inside the "
     "domain, weights scaled by the piece's measure, and the integral of any function equal to the sum over pieces; the strength of the "
     "base rule is kept. Splitting a rule into weights, points and data and back loses nothing.",
     ["inputs"], "all base rules (arbitrary weights and points), piece counts and polynomials",
     "The existing tests cover a few fixed subdivisions.",
     ["src/quadrature/subdivide.rs", "src/quadrature.rs"],
     [("subdivide_univariate, subdivide_triangle", "src/quadrature/subdivide.rs"), ("Quadrature, QuadratureParts", "src/quadrature.rs")],
     ["sx_quad"], ["subdivide_univariate, subdivide_triangle", "Quadrature::{integrate,weights,points,to_parts}, QuadratureParts::{from,with_data,iter}"],
     "up to 7 pieces of arbitrary 3-point rules, 4 subdivisions of the triangle with an arbitrary one-point rule and shipped rules of strength 0-5.",
     "more pieces; rounding.")

prop("P12", "Integrals over physical elements obey the change of variables",
     "Integrating a function of position, interpolated value and gradient over an element equals the weighted sum at the mapped points times the "
     "volume form, with the physical gradient of the interpolation; shipped rules give the exact area, volume and moments of any "
     "simplex; singular elements are reported; mesh assemblers use each element's own data, report the space's sizes, refuse values of another size and add up.",
     ["inputs"], "all vertex positions, nodal values, quadrature points and weights",
     TESTS + " on a few elements.",
     ["src/integrate.rs", "src/util.rs", "src/assembly/global.rs"],
     [("volume_form, integrate_over_element, integrate_over_volume_element", "src/integrate.rs"), ("ElementIntegralAssemblerBuilder", "src/integrate.rs")],
     ["sx_integ"],
     ["volume_form, integrate_over_element, integrate_over_volume_element, FnFunction", "ElementIntegralAssemblerBuilder, ElementIntegral(Volume)Assembler", "assemble_scalar",
      "compute_interpolation, compute_interpolation_gradient"],
     "ten element types with arbitrary vertices in [-4, 4] and rules of 1-2 arbitrary points; gradients for Tri3, Quad4, Tri6, Tet4, solutions of one to three components; one distorted instance each of Quad9, Tet10, Tet20, Hex8, Hex20, Hex27 with arbitrary nodal values and weights; two-element meshes.",
     "gradients on arbitrary Hex8 and Tet10; larger meshes; rounding.")

A = "src/assembly/"
prop("P13", "Element energy, vector and matrix of an elliptic operator are consistent",
     "For every element the vector is the exact derivative of the energy and the matrix the exact derivative of the vector, with the "
     "quadrature weights, per-point parameters and volume form, for nonlinear and nonsymmetric operators; batched contractions equal the "
     "single ones; the stiffness of any simplex is the exact gradient product; singular elements are errors; mesh assemblers use each element's data.",
     ["inputs"], "all nodal values, weights, parameters, quadrature points and (for simplices and mesh elements) vertices or positions",
     "Tests compare against finite differences or stored matrices for few states; index slips between components, points or symmetric halves stay within tolerance or unseen.",
     [A + "local/elliptic.rs", A + "local.rs", A + "operators.rs", A + "operators/laplace.rs"],
     [("assemble_element_elliptic_{matrix,vector}, compute_element_elliptic_energy", A + "local/elliptic.rs"), ("EllipticContraction::accumulate_contractions_into", A + "operators.rs")],
     ["sx_local"],
     ["assemble_element_elliptic_matrix, assemble_element_elliptic_vector, compute_element_elliptic_energy", "ElementEllipticAssembler(Builder)",
      "EllipticContraction::accumulate_contractions_into", "LaplaceOperator"],
     "one distorted instance of each of 10 element types with arbitrary nodal values, one to three components, 1-2 points of arbitrary weight and parameters; Laplace on arbitrary Tri3/Tet4 "
     "at any point; values in [-4, 4].",
     "arbitrary geometry of higher-order elements with nonlinear operators (covered by P08, P12 separately); rounding.")

prop("P14", "Mass matrices and source vectors are the exact weighted integrals",
     "The element mass matrix is the sum over points of weight, volume form, density and products of basis functions, placed on the "
     "diagonal of each component block; the source vector likewise with the source evaluated at the physical point and parameters. "
     "Canonical rules give the exact mass matrix of any simplex; mesh assemblers use each element's vertices, rule and density.",
     ["inputs"], "all vertices, points, weights, densities, parameters and component counts 1, 2, 3 and 5",
     TESTS + " with constant density.",
     [A + "local/mass.rs", A + "local/source.rs"],
     [("assemble_element_mass_matrix", A + "local/mass.rs"), ("assemble_element_source_vector", A + "local/source.rs")],
     ["sx_local"],
     ["assemble_element_mass_matrix, ElementMassAssembler", "assemble_element_source_vector, ElementSourceAssembler(Builder)"],
     "8 element types with arbitrary vertices in [-4, 4], rules of 1-2 arbitrary points, 1, 2, 3 or 5 components; a two-element mesh.",
     "more points per rule; rounding.")

prop("P15", "Global assembly is the scatter-add of element contributions, serial or parallel",
     "Matrices, vectors and scalars assembled over any connectivity equal the sum of the element contributions placed at their global "
     "positions; the pattern holds exactly the couplings, sorted; assembling into existing data adds to it; reused workspaces and earlier "
     "failures leave no trace; colors partition the elements into node-disjoint sets; element errors are returned. Parallel equals serial.",
     ["inputs", "schedules"], "all element values, all ordered connectivities of two elements with up to 3 of 4 nodes, and larger fixed meshes",
     TESTS + " on meshes from generators; node orders, isolated nodes and reuse with other sizes are not enumerated.",
     [A + "global.rs", "fenris-paradis/src/coloring.rs", "fenris-paradis/src/lib.rs", "fenris-sparse/src/lib.rs"],
     [("CsrAssembler, CsrParAssembler, VectorAssembler, VectorParAssembler", A + "global.rs"), ("color_nodes", A + "global.rs"), ("assemble_scalar, par_assemble_scalar", A + "global.rs")],
     ["sx_global"],
     ["CsrAssembler::{assemble_pattern,assemble,assemble_into_csr}, CsrParAssembler::*", "VectorAssembler::*, VectorParAssembler::*",
      "assemble_scalar, par_assemble_scalar", "gather_global_to_local, add_local_to_global", "the deprecated apply functions over element potentials", "color_nodes, sequential_greedy_coloring", "BlockAdapter, ParallelCsrRowCollection"],
     "two elements with 1-3 of 4 (thorough: 5) nodes in every order, three 2-node elements on 3 nodes, nine larger meshes up to 40 nodes; 1-3 components; element values symbolic; "
     "indices are enumerated, the thread schedule is whatever occurs.",
     "all thread schedules (disjointness of concurrent writes is P18); larger connectivities; rounding.")

prop("P32", "Results do not depend on what was computed before",
     "Element energies, vectors, matrices, mass matrices, source vectors, integrals and interpolations use buffers that a thread keeps between calls: each computation gives the same values (or fails in the same way) "
     "before and after any other one on the same thread, whatever that one's element type, node count, dimension, rule size, solution values or failure; global assemblers used for one problem after another, of any sizes, "
     "give what fresh ones give.",
     ["inputs", "histories"], "all solution values, weights and parameters; every ordered pair of computations on nine elements of five kinds; every sequence of three of six global problems",
     "Unit tests run one kind of assembler per thread; mixing element types, dimensions, rules and failing elements on one thread is not tested.",
     [A + "local/elliptic.rs", A + "local/mass.rs", A + "local/source.rs", "src/integrate.rs", "src/space/interpolate.rs", A + "buffers.rs", A + "global.rs"],
     [("thread-local workspaces of ElementEllipticAssembler, ElementMassAssembler, ElementSourceAssembler, ElementIntegral(Volume)Assembler", A + "local, src/integrate.rs"),
      ("BasisFunctionBuffer, QuadratureBuffer, InterpolationBuffer", A + "buffers.rs"), ("interpolate_at_points, interpolate_gradient_at_points", "src/space/interpolate.rs"), ("workspaces of CsrAssembler, CsrParAssembler, VectorAssembler, VectorParAssembler", A + "global.rs")],
     ["sx_global"],
     ["ElementEllipticAssembler::assemble_element_{scalar,vector,matrix}", "ElementMassAssembler, ElementSourceAssembler", "ElementIntegralAssembler, ElementIntegralVolumeAssembler", "interpolate_at_points, interpolate_gradient_at_points",
      "CsrAssembler, CsrParAssembler, VectorAssembler, VectorParAssembler"],
     "one computation between two equal ones; Tri3 (one degenerate), Tri6, Quad4, Tet4, Hex8 elements with rules of 0-4 points; fixed vertices, everything else symbolic; global problems of 2-6 nodes with 1-3 components.",
     "longer histories; other operators; several threads at once (P15, P18).")

prop("P16", "Homogeneous Dirichlet conditions constrain exactly the given nodes",
     "Applying the conditions to a structurally symmetric sparse or a dense matrix makes all couplings of the constrained components vanish, puts one "
     "common positive scale, no larger than the diagonal's magnitude (one for a vanishing sparse diagonal), on their diagonal and leaves every other entry as it was; the "
     "right-hand side becomes zero at exactly those components; the resulting system has the reduced problem's solution.",
     ["inputs"], "all matrix values, all symmetric patterns on three nodes, all node subsets (unordered, with repetition), 1-3 components",
     TESTS + "; zero or negative diagonals and node subsets are not enumerated.",
     [A + "global.rs"],
     [("apply_homogeneous_dirichlet_bc_{csr,matrix,rhs}", A + "global.rs")],
     ["sx_global"],
     ["apply_homogeneous_dirichlet_bc_csr, apply_homogeneous_dirichlet_bc_matrix, apply_homogeneous_dirichlet_bc_rhs"],
     "three nodes (four for vectors), 1-3 components, entries in [-4, 4]; chains and grids of up to 37 nodes with concrete patterns and symbolic entries.",
     "more nodes; structurally nonsymmetric matrices (excluded by the documentation).")

prop("P17", "Assembler adapters, quadrature tables and buffers return each element's own data",
     "Aggregated assemblers answer for element i with the data of the i-th element of the concatenation, empty parts included; transformed and node-mapped assemblers apply "
     "exactly the given map and nothing else; general, compact and uniform quadrature tables return each element's weights, points and data, and refuse weights, points, data or rule numbers that do not match; buffers hold and interpolate "
     "the current element's values after any sequence of reuse.",
     ["inputs", "histories"], "all element values, weights, points, data, and sizes 0-2 of three aggregated assemblers",
     TESTS + "; empty parts, reuse in another order and partial buffer updates are not covered.",
     [A + "local.rs", A + "local/quadrature_table.rs", A + "buffers.rs"],
     [("AggregateElementAssembler", A + "local.rs"), ("QuadratureTable impls", A + "local/quadrature_table.rs"), ("InterpolationBuffer, QuadratureBuffer, BasisFunctionBuffer", A + "buffers.rs")],
     ["sx_local"],
     ["AggregateElementAssembler::*", "transform_element_{scalar,vector,matrix}, map_element_nodes", "GeneralQuadratureTable, CompactQuadratureTable, UniformQuadratureTable",
      "QuadratureBuffer::* (also as a Quadrature), tables without data", "InterpolationBuffer::*, InterpolationElementBuffer::*", "BasisFunctionBuffer::*"],
     "three aggregated assemblers of 0-2 elements with 1-2 nodes; rules of 0-3 points; two-triangle meshes; three fillings of a basis buffer from quadrilaterals, triangles and segments.",
     "more elements.")

M = "src/mesh/"
prop("P24", "Generated and sampled meshes tile exactly the requested region",
     "Rectangular and box meshes of quads, hexahedra and tetrahedra have the requested cell counts, uniform positively oriented cells, conforming shared faces, "
     "vertices inside the box and a total area or volume equal to the box's, with every point of the box in some cell; a cell count of zero gives no cells; "
     "voxel and signed-distance sampled meshes contain exactly the cells selected by the documented criterion.",
     ["inputs"], "all lengths, offsets, top-left corners and points of the box, all cell counts up to three per axis, all boxes of the sampled domain",
     TESTS + " (fixed sizes); orientation, conformity and coverage are only snapshot-tested.",
     [M + "procedural.rs"],
     [("create_rectangular_uniform_quad_mesh_2d, create_unit_square_uniform_*", M + "procedural.rs"),
      ("create_rectangular_uniform_{hex,tet}_mesh, create_unit_box_uniform_*", M + "procedural.rs"),
      ("voxelize_bounding_box_*, approximate_quad_mesh_for_sdf_2d, approximate_triangle_mesh_for_sdf_2d", M + "procedural.rs")],
     ["sx_mesh"],
     ["create_rectangular_uniform_quad_mesh_2d, create_unit_square_uniform_{quad,tri}_mesh_2d", "create_rectangular_uniform_{hex,tet}_mesh, create_unit_box_uniform_{hex,tet}_mesh_3d",
      "voxelize_bounding_box_2d, voxelize_sdf_2d", "approximate_{quad,triangle}_mesh_for_sdf_2d", "Mesh::*"],
     "unit lengths 1/2, 1 and 2 where the code converts them to f64; up to 3 cells per axis (a few shapes with tens of cells at a symbolic corner); corners in a fixed box, symbolic; exact reals; the f64-only sphere generator is run for 1-5 sweeps and its output checked against every point of the ball.",
     "larger cell counts; rounding.")

prop("P25", "Mesh conversion and refinement keep geometry, orientation and conformity",
     "Converting linear to quadratic and cubic meshes keeps the original vertices and corner order, puts new nodes exactly at the points of the edge, face or cell that the "
     "element's node order prescribes and shares them between neighbours; converting to simplices and splitting or refining cells keeps total signed area or volume, "
     "covers the same points, and gives equal-size children with conforming faces. Polyhedral meshes store each face once; their cells become tetrahedra exactly if they are tetrahedra.",
     ["inputs"], "all vertex coordinates; all relative orders and orientations of two adjacent cells",
     TESTS + "; neighbours whose shared face is numbered differently are rarely sampled.",
     ["src/mesh_convert.rs", M + "refinement.rs", M + "refinement/detail.rs", M.replace("mesh/", "mesh.rs")],
     [("From<&Mesh> conversions", "src/mesh_convert.rs"), ("refine_uniformly, refine_mesh", M + "refinement.rs"), ("EdgeMidpointLabel", M + "refinement/detail.rs")],
     ["sx_mesh"],
     ["From<&TriangleMesh2d> for Tri6Mesh2d; From<&QuadMesh2d> for Quad9Mesh2d; Tet4 to Tet10/Tet20; Hex8 to Hex20/Hex27; Tet10 to Tet4; Hex8 to Tet4",
      "refine_uniformly, refine_uniformly_repeat, refine_mesh", "Mesh::split_* for concave quads", "From<&Mesh> for PolyMesh, TryFrom<&PolyMesh3d> for Tet4Mesh"],
     "two cells sharing a facet, every numbering of the second; unit grids of tens of cells in several vertex numberings; up to two refinement rounds; coordinates in [-64, 64] symbolic.",
     "three or more cells around an edge; curved geometry; polyhedral cells that repeat a face.")

prop("P26", "Connectivities describe their cell's facets; boundary extraction is exact",
     "Each connectivity lists every facet of its cell once, oriented outward, with the facet's own nodes in that facet element's order, and builds the cell and element from its "
     "vertices; the boundary of a mesh is exactly the facets belonging to one cell, outward, with that cell's index; so the flux through the extracted boundary vanishes "
     "for constant fields and gives the volume for the position field.",
     ["inputs"], "all vertex coordinates and all points of reference facets; all subsets of cells of small meshes",
     TESTS + "; facet node order is only used indirectly by boundary integrals.",
     ["src/connectivity.rs", M.replace("mesh/", "mesh.rs")],
     [("get_face_connectivity", "src/connectivity.rs"), ("find_boundary_faces, find_boundary_vertices, extract_surface_mesh", "src/mesh.rs")],
     ["sx_mesh"],
     ["Connectivity::get_face_connectivity/num_faces for all 17 connectivities", "CellConnectivity::cell, vertex_indices(_mut), Deref, conversion to linear connectivities", "Mesh::find_boundary_faces/find_boundary_vertices/extract_surface_mesh/find_boundary_face_indices"],
     "meshes of up to 8 triangles, 5 triangles of which four share one edge, 6 quads, 8 hexahedra (all subsets) and one tetrahedral box; three subsets each of grids with tens of cells.",
     "more cells.")

prop("P27", "Reordering and selecting parts of a mesh only renames its vertices and cells",
     "Permutations are accepted exactly when valid, invert, reverse and apply as documented; reordering a mesh keeps every cell's vertex coordinates and only renames "
     "and resorts; Cuthill-McKee orders are permutations whose levels are contiguous and which start each component at a minimum degree vertex; keeping cells keeps exactly those cells and their vertices; "
     "translations, rigid maps and bounding boxes are exact.",
     ["inputs", "histories"], "all vertex coordinates; all index vectors up to length 4, all graphs on up to 5 (6) vertices, all cell subsets of small meshes",
     TESTS + "; invalid indices, isolated vertices and disconnected graphs need specific structures.",
     [M + "reorder.rs", "src/mesh.rs"],
     [("Permutation", M + "reorder.rs"), ("reorder_mesh_par, cuthill_mckee", M + "reorder.rs"), ("keep_cells, translate, transform_vertices", "src/mesh.rs")],
     ["sx_mesh"],
     ["Permutation::{from_vec,inverse,reverse,apply_to_slice}", "cuthill_mckee, reverse_cuthill_mckee, reorder_mesh_par, MeshPermutation::apply", "Mesh::keep_cells, translate, transform_*; vertices_mut; BoundedGeometry, GeometryCollection for Mesh"],
     "index vectors of length up to 4, graphs of up to 5 vertices (6 thorough), meshes of up to 4 cells; discrete structure is split into paths, values are symbolic; concrete graphs and meshes with tens of vertices.",
     "larger graphs.")

PA = "fenris-paradis/src/"
prop("P18", "Parallel access to shared storage is exclusive, complete, schedule independent",
     "Subsets are accepted as disjoint exactly when no index occurs in two of them; greedy coloring partitions any family of subsets into disjoint groups; iterating over disjoint subsets of "
     "a slice, its blocks or a matrix's rows visits every subset once, with its label and its own entries, for every way of splitting the work and every "
     "order of reads and writes between the parts, so the result is the sequential one; subsets outside the storage are refused; scattering color by color loses no contribution.",
     ["inputs", "schedules"], "all families of up to four subsets of a small index set, all binary splits of the work, all interleavings of the parts, all stored values",
     TESTS + "; a race, or a split at a particular position, shows only under particular schedules, and empty subsets are not tested.",
     [PA + "lib.rs", PA + "coloring.rs", PA + "adapter.rs", PA + "slice.rs", "src/assembly/global.rs", "fenris-sparse/src/sparse.rs"],
     [("DisjointSubsets::{try_from_disjoint_subsets, subsets_par_iter}", PA + "lib.rs"), ("sequential_greedy_coloring", PA + "coloring.rs"), ("BlockAdapter", PA + "adapter.rs"),
      ("ParallelCsrRowCollection", "fenris-sparse/src/sparse.rs")],
     ["sx_par"],
     ["DisjointSubsets::{try_from_disjoint_subsets,subsets_par_iter}, its rayon Producer (split_at, into_iter)", "SubsetAccess::*", "sequential_greedy_coloring", "ParallelSliceAccess, BlockAdapter, Block, BlockMut, ParallelCsrRowCollection"],
     "families of up to 4 subsets with up to 3 indices below 6; all binary trees of splits, two concurrent parts interleaved at every step; values symbolic; grids of up to 200 cells under repeated halving. Schedules are produced by driving the "
     "real rayon producer with solver-enumerated split points and orders.",
     "weak memory effects; larger families.")

prop("P19", "A nested vector behaves as a vector of vectors",
     "After any sequence of pushes, incremental appends, element updates, clears and copies, a nested vector has the length, contents, first and last entry, total element count, iteration order and equality "
     "of the corresponding vector of vectors; indices outside give no entry.",
     ["inputs", "histories"], "all histories of up to five operations (thorough: six), all stored values and queried indices",
     TESTS + "; clearing, empty inner vectors and abandoned appenders in combination are not tested.",
     ["fenris-nested-vec/src/lib.rs"],
     [("NestedVec, ArrayAppender", "fenris-nested-vec/src/lib.rs")],
     ["sx_par"],
     ["NestedVec::*", "ArrayAppender::*"],
     "up to 5 (6) operations with arrays of up to 2 elements; histories are split into paths, values symbolic; one history of 100 arrays; equality between every history's vector and a freshly built one.",
     "deserialisation of inconsistent data; longer histories.")

prop("P20", "Conjugate gradients: true residuals, honest convergence, no carried-over state",
     "For every symmetric operator and diagonal preconditioner, the stopping criterion is reset once and asked in every iteration with the iteration number, right-hand side norm and true residual; "
     "successive search directions are conjugate and residuals orthogonal; success implies the criterion holds, the iteration limit is respected, failures name an indefinite operator or "
     "preconditioner with a witness or pass on the failure, no step is taken with an operator or preconditioner seen not to be positive definite; n steps solve an n-dimensional positive definite system; a vanishing right-hand side gives zero; a reused workspace has no influence.",
     ["inputs", "histories", "fault_sequences"], "all matrices, preconditioners, right-hand sides, guesses and tolerances; all points at which operator, preconditioner or criterion fail; all earlier uses of the workspace",
     TESTS + " (a few fixed systems); indefinite operators, failing operators and reused workspaces are not tested.",
     ["fenris-sparse/src/cg.rs"],
     [("ConjugateGradient::solve_with_guess", "fenris-sparse/src/cg.rs"), ("RelativeResidualCriterion", "fenris-sparse/src/cg.rs")],
     ["sx_opt"],
     ["ConjugateGradient::*", "CgWorkspace", "RelativeResidualCriterion", "LinearOperator for DMatrix, CsrMatrix, IdentityOperator"],
     "one to three unknowns and up to two steps; entries in [-4, 4]; concrete tridiagonal systems of four and nine unknowns with a symbolic scale, stopped after every number of steps; exact reals.",
     "rounding (finite termination is an exact-arithmetic statement); more steps.")

prop("P21", "Newton and backtracking follow the documented iteration and stop honestly",
     "Whatever the function, Newton's method evaluates and solves exactly at its iterates, updates by the (line-searched) step, succeeds only when the residual norm is within the tolerance, reports failure when the "
     "iteration limit, Jacobian solve or line search fails, and leaves the last iterate and its residual; backtracking accepts only a step meeting its decrease condition, tries the documented step lengths in order, and "
     "gives up only after all; linear systems are solved in one step.",
     ["inputs", "fault_sequences", "histories"], "all functions (every evaluation and every Jacobian solve returns arbitrary values), start points, tolerances, and failing solves",
     TESTS + " (single fixed functions); line search failures and limits are not tested.",
     ["fenris-optimize/src/newton.rs"],
     [("newton, newton_line_search", "fenris-optimize/src/newton.rs"), ("BacktrackingLineSearch::step", "fenris-optimize/src/newton.rs")],
     ["sx_opt"],
     ["newton, newton_line_search", "NoLineSearch::step, BacktrackingLineSearch::step"],
     "one to three unknowns, up to three (four) iterations, up to twelve backtracking steps; the function is an uninterpreted sequence of values.",
     "rounding; longer runs.")

prop("P22", "Finite differences are exact to their order and restore their arguments",
     "Approximate gradients and Jacobians are the central difference quotients of the function at the given point and step in every entry, so they are exact for quadratic functions, "
     "for every point, step and dimension; every evaluation point differs from the given one in a single coordinate by the step; the point is restored.",
     ["inputs"], "all functions (each evaluation returns arbitrary values), points, steps",
     TESTS + " (single functions and steps with tolerances); non-square Jacobians are not tested.",
     ["fenris-optimize/src/calculus.rs"],
     [("approximate_jacobian, approximate_{gradient,jacobian}_fd(_into)", "fenris-optimize/src/calculus.rs")],
     ["sx_opt"],
     ["approximate_jacobian", "approximate_gradient_fd, approximate_gradient_fd_into", "approximate_jacobian_fd, approximate_jacobian_fd_into"],
     "up to three outputs and four inputs; exact reals.",
     "rounding.")

prop("P31", "Material stresses are energy derivatives, objective and batched consistently",
     "For linear elastic, St. Venant-Kirchhoff and Neo-Hookean materials in one to three dimensions, energies are the documented ones, the stress is the energy's derivative, the contraction is the "
     "stress's derivative contracted with the given vectors (and symmetric), batched and displacement-gradient variants agree with them and add to exactly the addressed blocks; "
     "nonlinear materials are unaffected by rigid rotations and stress free at rest; the Neo-Hookean energy is infinite and its stress undefined for inverted states; Lame parameters convert as documented.",
     ["inputs"], "all deformation gradients, contraction vectors, Lame parameters, rotations, and accumulated contents",
     TESTS + " (sampled 2D/3D deformations compared with finite differences); one dimension, inverted states and different vectors in batches are not covered.",
     ["fenris-solid/src/materials.rs", "fenris-solid/src/lib.rs", "fenris-solid/src/logdet.rs", "fenris-solid/src/gravity_source.rs"],
     [("HyperelasticMaterial impls", "fenris-solid/src/materials.rs"), ("compute_batch_contraction, MaterialEllipticOperator", "fenris-solid/src/lib.rs"), ("log_det_F", "fenris-solid/src/logdet.rs"),
      ("GravitySource", "fenris-solid/src/gravity_source.rs")],
     ["sx_solid"],
     ["LinearElasticMaterial, StVKMaterial, NeoHookeanMaterial: compute_energy_density, compute_stress_tensor, compute_stress_contraction, accumulate_stress_contractions_into and their du variants", "compute_batch_contraction, MaterialEllipticOperator::*", "log_det_F, LameParameters::from, GravitySource"],
     "dimensions 1-3; entries in [-4, 4]; batches of 2 by 2 vectors; the logarithm is an uninterpreted function with its derivative.",
     "rounding (log_det_F's accuracy for small displacements); batched Neo-Hookean contractions of inverted states (an explicit todo).")

prop("P23", "Interpolation evaluates the closest element's basis expansion, in every form",
     "A mesh seen as a space answers for each element with that element's nodes, basis, gradients, map and Jacobian. A spatial index finds an element containing the point, or else one whose closest point is "
     "nearest, with its reference coordinates, and otherwise answers like its space. Interpolated values and physical gradients at points are that element's expansion, identically for direct, single-point, function-object "
     "and precomputed (sequential or parallel, compressed, reused) interpolation; a space without elements interpolates to zero.",
     ["inputs", "histories"], "all vertex positions, weights, reference coordinates, element choices per point, and closest points within the element boxes",
     TESTS + "; ties, points covered by several elements' boxes, spaces of different element types and empty spaces are not tested.",
     ["src/space/fixed_interpolator.rs", "src/space/interpolate.rs", "src/space/spatially_indexed.rs", "src/space.rs", "src/mesh.rs", "src/error.rs"],
     [("interpolate_at_points, interpolate_gradient_at_points", "src/space/interpolate.rs"), ("FixedInterpolator", "src/space/fixed_interpolator.rs"),
      ("find_closest_element_and_reference_coords", "src/space/spatially_indexed.rs"), ("ElementInSpace", "src/space.rs")],
     ["sx_space"],
     ["FiniteElementSpace for Mesh, ElementInSpace", "interpolate_at_points, interpolate_gradient_at_points, InterpolateInSpace, InterpolateGradientInSpace, SpaceInterpolationFn",
      "FixedInterpolator::{from_space_and_points,from_space_and_points_par,from_compressed_values,interpolate,interpolate_into,interpolate_gradients,interpolate_gradients_into}", "SpatiallyIndexed::*, BoundsForElementInSpace, ClosestPointInElementInSpace for Mesh"],
     "up to 3 points and 2 elements of different types with symbolic vertices; every affine function at up to 90 points of a mesh of 72 triangles; up to 3 elements in boxes from a pool of 6 (12 elements in a grid, two of them free) with symbolic closest points; solution dimension 1-3.",
     "the search tree itself works on f64 boxes and is run with concrete boxes; one-dimensional spaces (the tree library refuses them).")

prop("P29", "Error estimates are the quadrature of the squared error against the reference",
     "The squared L2 error of a discrete function on an element is the weighted sum over the quadrature points of the squared difference to the reference at the mapped point times the "
     "absolute Jacobian determinant, and the squared H1 seminorm error that of the physical gradients; on a mesh it is the sum over the elements, each with its own rule, and the error its square root.",
     ["inputs"], "all vertex positions, weights, quadrature points and weights, discrete coefficients and affine reference functions",
     TESTS + " (convergence rates only); a wrong factor, a transposed gradient or the wrong element's rule can leave a convergence rate unchanged.",
     ["src/error.rs", "src/integrate.rs"],
     [("estimate_element_L2_error_squared, estimate_element_H1_seminorm_error_squared", "src/error.rs"), ("estimate_L2_error, estimate_H1_seminorm_error", "src/error.rs")],
     ["sx_space"],
     ["estimate_element_{L2,H1_seminorm}_error(_squared)", "estimate_{L2,H1_seminorm}_error(_squared)", "integrate_over_volume_element, integrate_over_element, UFunction, UGradFunction"],
     "triangles, quadrilaterals and tetrahedra with one vertex at the origin (H1 in 3D: one free vertex, concrete points), 1-2 points, solutions of up to five components, meshes of two triangles; both orientations; meshes of up to 98 triangles with symbolic coefficients.",
     "other elements; rounding.")

prop("P28", "Matrix helpers return exact decompositions, views and copies of their operands",
     "The rotation SVD is a product of two proper rotations and a diagonal that gives back the matrix; symmetric eigenvalue helpers return the extreme eigenvalues and the ratio of their magnitudes; "
     "the polar rotation stays a unit quaternion, keeps an exact rotation and converges with second order; views, slices, nodal extraction, interpolation and cross products agree with their "
     "definitions; incompatible layouts are refused; matrix files contain exactly the entries of the matrix.",
     ["inputs"], "all matrix entries, nodal values, basis values and written values; all small sparsity patterns, node lists and rotations of lists",
     TESTS + " (the polar decomposition is tested on two matrices, most of these helpers not at all); a wrong sign in a Hessian only slows the iteration, a wrong stride only shows for non-square views.",
     ["src/util.rs", "fenris-geometry/src/util.rs"],
     [("rotation_svd, apd, min_eigenvalue_symmetric, condition_number_symmetric", "src/util.rs"),
      ("coerce_col_major_slice, try_transmute_ref, compute_interpolation, extract_by_node_index, dump_csr_matrix_to_mm_file", "src/util.rs"),
      ("slices_are_equal_shift_invariant", "fenris-geometry/src/util.rs")],
     ["sx_misc"],
     ["rotation_svd", "min_eigenvalue_symmetric, min_max_symmetric_eigenvalues, condition_number_symmetric", "apd", "diag_left_mul, cross_product_matrix",
      "coerce_col_major_slice(_mut), try_transmute_{ref,ref_mut,slice}", "compute_interpolation(_gradient), extract_by_node_index, global_vector_from_point_fn",
      "dump_matrix_to_file, dump_csr_matrix_to_mm_file, dump_mesh_connectivity_matrices", "slices_are_equal_shift_invariant"],
     "2x2 decompositions with one or two free entries (thorough: all free); polar decomposition with 1 free entry or 1 perturbation parameter up to 1/8, 3 rotations; views up to 3x4; 3 nodes; lists up to length 4; "
     "matrix files up to 3x3 with values passed through the text unchanged.",
     "3x3 singular values and eigenvalues (unbounded iterations); number formatting; rounding.")

prop("P30", "Meshes and data pass through VTK and Gmsh files unchanged",
     "A VTK data set has one cell of the element's VTK type per element, with the nodes in VTK's order, every vertex position (padded to three dimensions) and every point and cell attribute; written files read "
     "back as the same data set. Loading a Gmsh file gives its vertices in order and exactly the elements of the requested type, numbered from the smallest node tag; other, inconsistent or damaged files are errors.",
     ["inputs", "configurations"], "all vertex positions, attribute values and node numbers; all partitions into node and element blocks considered, text and binary",
     TESTS + " (snapshots of a few meshes); a swapped node pair, an ignored offset or a wrong cell type for one element shows in no snapshot.",
     ["src/io/vtk.rs", "src/io/msh.rs"],
     [("VtkCellConnectivity, FiniteElementMeshDataSetBuilder", "src/io/vtk.rs"), ("load_msh_from_bytes, MshConnectivity", "src/io/msh.rs")],
     ["sx_io"],
     ["VtkCellConnectivity::{num_nodes, cell_type, write_vtk_connectivity} (12 connectivities)", "FiniteElementMeshDataSetBuilder::{from_mesh, with_*_attributes, try_build, try_export}",
      "load_msh_from_bytes, load_msh_from_file (9 connectivities)", "parse of the written file by vtkio, of the loaded file by mshio"],
     "meshes of up to 3 elements (and up to 330 nodes in concrete layouts) with every coordinate and attribute symbolic (passed through text and binary storage as tagged numbers); node tags starting at 1 or 4; up to 3 node blocks and 3 element blocks; one damaged byte range per kind.",
     "number formatting; sparse node tags (refused); files whose nodes are not in tag order (the parser drops dense tags); compressed VTK data.")
