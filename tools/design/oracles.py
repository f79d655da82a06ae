# id -> (oracle, cost, why it reaches what tests cannot)
O = {
"P01": ("the box as a point set: universally quantified member point, per-coordinate min/max written as order facts, distances as optimality over a quantified point of the box.", "13-20 s", "all orders of the corner coordinates and query positions, ties included, are paths."),
"P02": ("parameter equations: returned points satisfy both objects' implicit equations; optimality by a quantified competitor point on the line or segment; completeness by a quantified common point.", "12 s", "tangent, touching and end-point cases are exactly the boundary cases of solver-decided branches."),
"P03": ("set equality by a quantified point: in clip(P,H) iff in P and in H (membership of the result written out as half-plane tests); areas of the two sides add up.", "45 s", "cuts through vertices and along edges are separate feasible paths, which random cuts never hit."),
"P04": ("closed formulas (shoelace, triple products), concavity as sign of the corner's cross product, triangulations by areas and positive orientation.", "9 s", "every concave corner and both splits are covered for all quads."),
"P05": ("attained (reported point lies on the boundary at the reported distance) and minimal (variational inequality at the vertices, or quantified boundary point); inside by half-plane tests; solid angles against an independent algebraic form of tan.", "32 s", "reflex corners, Voronoi boundaries and sign decisions are solver-decided branches."),
"P06": ("topology by counting face incidences, divergence-theorem volume from an independent oracle, membership of all vertices, histories of operations as choices.", "20 s", "planes through vertices, edges and faces; all selections of cells."),
"P07": ("identities over arbitrary reference points: partition of unity, monomial reproduction, vanishing on facets; node tables written out independently.", "10 s", "polynomial identities for all points rather than samples to tolerance."),
"P08": ("symbolic derivative of the executed basis and map.", "<1 s", "exact for all points and vertices; no finite difference tolerance."),
"P09": ("defining equations of the maps; closest points via variational inequality at the element's vertices.", "27 s", "Voronoi region boundaries of skew and degenerate triangles."),
"P10": ("analytic integrals of all monomials against arbitrary coefficients; error bound decided by LRA over the actual tables.", "50 s", "all strengths and every polynomial of the space at once; a table entry off in the 10th digit is a counterexample polynomial."),
"P11": ("composite rule written out piecewise; exact integrals of symbolic polynomials.", "2 s", "arbitrary base rules and piece counts."),
"P12": ("weighted sums with an independently computed volume form and inverse transpose Jacobian; exact simplex moments.", "8 s", "arbitrary vertices, so both orientations and all shears."),
"P13": ("symbolic derivative of energy and vector, direct quadrature sums with a nonsymmetric test operator.", "18 s", "every index slip between components, points or halves changes a polynomial identity."),
"P14": ("direct quadrature sums with arbitrary density and parameters.", "2 s", "as P13."),
"P15": ("dense scatter-add written out; pattern as a set; colors checked for disjointness.", "13 s", "all ordered connectivities of two elements, reuse of workspaces, failing elements at any position."),
"P16": ("entry by entry specification plus solution equivalence with the reduced problem.", "1 s", "all patterns, node subsets and zero or negative diagonals."),
"P17": ("the element's own data, tracked by distinct symbolic values.", "<1 s", "empty parts and any order of reuse."),
"P18": ("a shadow vector written sequentially; each subset exactly once; no two live parts share an index; errors exactly for overlapping families.", "6 s", "all split trees and interleavings of two parts; rayon's own splitting depends on load."),
"P19": ("`Vec<Vec<_>>` in lock step.", "3 s", "all histories up to 5 (6) operations."),
"P20": ("textbook CG quantities recomputed from definitions: true residual b-Ax at each criterion call, conjugacy, orthogonality; failing operators at every position.", "25 s", "all operators including indefinite ones; every failure point; any previous workspace content."),
"P21": ("a reference loop over the same uninterpreted evaluations.", "<1 s", "all functions at once; every failing position."),
"P22": ("central difference formula over uninterpreted evaluations.", "<1 s", "all functions, non-square shapes."),
"P23": ("the expansion over independently known nodes and basis values; nearest element by quantified competing elements whose closest points are arbitrary in their boxes.", "10 s", "ties and covering boxes; every assignment of points to elements; mixed element types."),
"P24": ("counts, orientation and area of every cell, quantified point of the box in some cell, conformity by counting facets.", "18 s", "all lengths, offsets and counts up to 3; all sampled boxes."),
"P25": ("node positions by the element's own reference nodes and map; conformity by shared node sets; quantified covering point.", "1 s", "all numberings of the neighbour."),
"P26": ("independent facet tables; flux identities over symbolic vertices.", "<1 s", "all facets and subsets of cells; orientation by exact volume identity."),
"P27": ("renaming bijection; bandwidth computed independently.", "19 s", "all small graphs and permutations."),
"P28": ("defining equations (U S V^T = A, det = 1, trace and determinant, |q| = 1, fixed point, second order decrease); definitions written out.", "23 s", "arbitrary entries, both signs, all shapes of views, histories of writes."),
"P29": ("the quadrature sum written out with an independent Jacobian.", "14 s", "both orientations, arbitrary rules and coefficients."),
"P30": ("independent node-order tables (positions of the reference nodes in VTK's and Gmsh's documented order), contents compared symbolically after the round trip.", "2 s", "every coordinate and attribute is a distinct symbol, so any swap, offset or padding error differs."),
"P31": ("symbolic derivatives of the energy; explicit index formulas; Cayley-parametrised rotations.", "29 s", "all deformations; different vectors in batches; inverted states; one dimension."),
"P32": ("the same computation before and after (its values are checked by P12-P15); fresh assemblers.", "6 s", "every ordered pair of computations, with failures in between; values are symbols, so a single stale one differs."),
}
