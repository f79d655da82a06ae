BUGS = []
def bug(id, prop, needs, breaks, edits, demo, deps):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, deps=deps))

GL = "fenris-geometry/src/lib.rs"
LN = "fenris-geometry/src/primitives/line.rs"

bug("b03-clip-touch", "P03", "a clip line that passes exactly through a vertex",
    "half-plane clipping drops vertices that lie exactly on the clip line",
    [("fenris-geometry/src/polytope.rs", "                let v1_contained = half_plane.contains_point(v1);\n                let v2_contained = half_plane.contains_point(v2);",
      "                let v1_contained = half_plane.signed_distance_to_point(v1) < T::zero();\n                let v2_contained = half_plane.contains_point(v2);")],
    '''use fenris_geometry::{ConvexPolygon, HalfPlane, SimplePolygon2d, Polygon2d};
use nalgebra::{point, vector, Unit};
fn main() {
    let p = ConvexPolygon::from_vertices(vec![point![0.0, 0.0], point![1.0, 0.0], point![1.0, 1.0], point![0.0, 1.0]]);
    let h = HalfPlane::from_point_and_normal(point![0.0, 0.0], Unit::new_normalize(vector![-1.0, 0.0]));
    let r: SimplePolygon2d<f64> = p.intersect_halfplane(&h).into();
    assert!((r.signed_area() - 1.0f64).abs() < 1e-12);
}
''', ["fenris-geometry", "nalgebra"])

bug("b04-quad-wrap", "P04", "a quad whose first vertex is the concave corner",
    "concave corner at vertex 0 is not recognised, so the quad is split outside itself",
    [("fenris-geometry/src/primitives/quad.rs", "        for i in 0..4 {", "        for i in 0..3 {")],
    '''use fenris_geometry::Quad2d;
use nalgebra::point;
fn main() {
    let q = Quad2d([point![1.0, 1.0], point![0.0, 4.0], point![0.0, 0.0], point![4.0, 0.0]]);
    assert_eq!(q.concave_corner(), Some(0));
    assert!((q.area() - 4.0f64).abs() < 1e-12);
}
''', ["fenris-geometry", "nalgebra"])

bug("b07-quadratic-clamp", "P07", "a reference point outside [-1, 1] (extrapolation, Newton iterates of the inverse map)",
    "quadratic line basis (Hex27) is clamped outside the reference interval and no longer sums to one there",
    [("src/element.rs", "    let alpha2 = alpha * alpha;\n    let xi2 = xi * xi;\n", "    let alpha2 = alpha * alpha;\n    let xi2 = if xi.abs() > 1.0 { xi.abs() } else { xi * xi };\n")],
    '''use fenris::element::{Hex27Element, FixedNodesReferenceFiniteElement};
use nalgebra::point;
fn main() {
    let e = Hex27Element::<f64>::reference();
    // reproduction of x^2 at a point outside of the element
    let b = e.evaluate_basis(&point![1.5, 0.5, 0.25]);
    let v = e.vertices();
    let s: f64 = (0..27).map(|i| b[i] * v[i].x * v[i].x).sum();
    assert!((s - 2.25f64).abs() < 1e-12, "{s}");
}
''', ["fenris", "nalgebra"])

bug("b11-subdivide-mirror", "P11", "a base rule that is not symmetric about the midpoint (for instance Gauss-Radau)",
    "subdividing a one-dimensional rule mirrors it in each piece, so asymmetric rules lose their weights' places",
    [("src/quadrature/subdivide.rs", "let point = ((b - a) * ref_point[0] + (b + a)) / 2.0;", "let point = ((a - b) * ref_point[0] + (b + a)) / 2.0;")],
    '''use fenris::quadrature::{subdivide::subdivide_univariate, Quadrature};
use nalgebra::Point1;
fn main() {
    // left Gauss-Radau rule with two points, exact for quadratics
    let q = (vec![0.5, 1.5], vec![Point1::new(-1.0), Point1::new(1.0 / 3.0)]);
    let s = subdivide_univariate(&q, 3);
    let first = s.points().iter().map(|p| p.x).fold(f64::INFINITY, f64::min);
    assert!((first + 1.0).abs() < 1e-12, "{first}");
}
''', ["fenris", "nalgebra"])

bug("b13-vector-orientation", "P13", "an element whose vertices are numbered clockwise (inverted)",
    "the elliptic element vector of an inverted element has the wrong sign, no longer matching energy and matrix",
    [("src/assembly/local/elliptic.rs", "output.gemm(weight * j_det.abs(), &g_t_j_inv_t", "output.gemm(weight * j_det, &g_t_j_inv_t")],
    '''use fenris::assembly::local::{assemble_element_elliptic_matrix, assemble_element_elliptic_vector};
use fenris::assembly::operators::LaplaceOperator;
use fenris::element::Tri3d2Element;
use fenris::quadrature::total_order;
use nalgebra::{point, vector, DMatrix, DVector, MatrixViewMut, OMatrix, U2, Dyn};
fn main() {
    let e = Tri3d2Element::from_vertices([point![0.0, 0.0], point![0.0, 1.0], point![1.0, 0.0]]);
    let (w, p) = total_order::triangle::<f64>(1).unwrap();
    let d = vec![(); w.len()];
    let u = DVector::from_row_slice(&[1.0, 3.0, -2.0]);
    let _ = vector![0.0];
    let mut v = DVector::zeros(3);
    let mut k = DMatrix::zeros(3, 3);
    let mut g = OMatrix::<f64, U2, Dyn>::zeros(3);
    assemble_element_elliptic_vector((&mut v).into(), &e, &LaplaceOperator, (&u).into(), &w, &p, &d, MatrixViewMut::from(&mut g)).unwrap();
    assemble_element_elliptic_matrix((&mut k).into(), &e, &LaplaceOperator, (&u).into(), &w, &p, &d, MatrixViewMut::from(&mut g)).unwrap();
    assert!((&k * &u - &v).norm() < 1e-12, "{k} {v}");
}
''', ["fenris", "nalgebra"])

bug("b14-negative-weight", "P14", "a quadrature rule with a negative weight",
    "points with negative weight are skipped when assembling a mass matrix",
    [("src/assembly/local/mass.rs", "        let scale = weight * j_det.abs() * *density;\n",
      "        let scale = weight * j_det.abs() * *density;\n        if scale <= T::zero() {\n            continue;\n        }\n")],
    '''use fenris::assembly::local::assemble_element_mass_matrix;
use fenris::element::Tri3d2Element;
use nalgebra::{point, DMatrix, Point2};
fn main() {
    let e = Tri3d2Element::from_vertices([point![0.0, 0.0], point![1.0, 0.0], point![0.0, 1.0]]);
    // four-point rule of degree 3 with a negative centroid weight
    let t = -1.0 / 3.0;
    let p: Vec<Point2<f64>> = vec![point![t, t], point![-0.6, -0.6], point![0.2, -0.6], point![-0.6, 0.2]];
    let w = [-9.0 / 8.0, 25.0 / 24.0, 25.0 / 24.0, 25.0 / 24.0];
    let mut m = DMatrix::zeros(3, 3);
    let mut b = vec![0.0; 3];
    assemble_element_mass_matrix(&mut m, &e, &w, &p, &[1.0; 4], 1, &mut b).unwrap();
    assert!((m.sum() - 0.5).abs() < 1e-12, "{m}");
}
''', ["fenris", "nalgebra"])

bug("b16-skip-zero-coupling", "P16", "a matrix whose values are not symmetric: zero at (i, j) but not at (j, i)",
    "applying Dirichlet conditions leaves couplings in the rows of free nodes when the constrained row stores a zero",
    [("src/assembly/global.rs", "                    *val = T::zero();\n                    // If we need to zero out (r, c), then we also need to zero out (c, r),\n                    // so we need to visit column c in r later\n                    rows_to_visit[col_idx] = true;\n",
      "                    // If we need to zero out (r, c), then we also need to zero out (c, r),\n                    // so we need to visit column c in r later\n                    if *val != T::zero() {\n                        *val = T::zero();\n                        rows_to_visit[col_idx] = true;\n                    }\n")],
    '''use fenris::assembly::global::apply_homogeneous_dirichlet_bc_csr;
use fenris::nalgebra_sparse::CsrMatrix;
fn main() {
    let mut m = CsrMatrix::try_from_csr_data(2, 2, vec![0, 2, 4], vec![0, 1, 0, 1], vec![2.0, 0.0, 5.0, 3.0]).unwrap();
    apply_homogeneous_dirichlet_bc_csr(&mut m, &[0], 1);
    assert_eq!(m.get_entry(1, 0).unwrap().into_value(), 0.0f64);
}
''', ["fenris"])

bug("b17-aggregate-empty", "P17", "an aggregate with an empty part before a non-empty one",
    "elements right after an empty part are looked up in the empty part",
    [("src/assembly/local.rs", "        let assembler_idx = match self.element_offsets.binary_search(&element_index) {\n            Ok(idx) => idx,\n            Err(idx) => idx - 1,\n        };\n",
      "        let idx = self\n            .element_offsets\n            .partition_point(|&offset| offset < element_index);\n        let assembler_idx = match self.element_offsets.get(idx) {\n            Some(&offset) if offset == element_index => idx,\n            _ => idx - 1,\n        };\n")],
    '''use fenris::assembly::local::{AggregateElementAssembler, ElementConnectivityAssembler, ElementScalarAssembler};
struct A(Vec<f64>);
impl ElementConnectivityAssembler for A {
    fn solution_dim(&self) -> usize { 1 }
    fn num_elements(&self) -> usize { self.0.len() }
    fn num_nodes(&self) -> usize { 1 }
    fn element_node_count(&self, _: usize) -> usize { 1 }
    fn populate_element_nodes(&self, o: &mut [usize], _: usize) { o[0] = 0 }
}
impl ElementScalarAssembler<f64> for A {
    fn assemble_element_scalar(&self, i: usize) -> eyre::Result<f64> { Ok(self.0[i]) }
}
fn main() {
    let parts = [A(vec![]), A(vec![2.0, 3.0]), A(vec![]), A(vec![4.0])];
    let a = AggregateElementAssembler::from_assemblers(&parts);
    let v: Vec<f64> = (0..3).map(|i| a.assemble_element_scalar(i).unwrap()).collect();
    assert_eq!(v, [2.0, 3.0, 4.0]);
}
''', ["fenris", "eyre"])

bug("b26-tet10-face", "P26", "the fourth face of a quadratic tetrahedron",
    "the edge nodes of one face of quadratic tetrahedra are listed in the wrong order",
    [("src/connectivity.rs", "3 => Some(Tri6d3Connectivity([v[0], v[3], v[2], v[7], v[8], v[6]])),", "3 => Some(Tri6d3Connectivity([v[0], v[3], v[2], v[6], v[8], v[7]])),")],
    '''use fenris::connectivity::Connectivity;
use fenris::mesh::procedural::create_unit_box_uniform_tet_mesh_3d;
use fenris::mesh::Tet10Mesh;
use nalgebra::{center, distance};
fn main() {
    let mesh = Tet10Mesh::<f64>::from(&create_unit_box_uniform_tet_mesh_3d::<f64>(1));
    let x = mesh.vertices();
    for c in mesh.connectivity() {
        for f in 0..4 {
            let face = c.get_face_connectivity(f).unwrap();
            let v = face.vertex_indices();
            for k in 0..3 {
                let mid = center(&x[v[k]], &x[v[(k + 1) % 3]]);
                assert!(distance(&mid, &x[v[3 + k]]) < 1e-12, "face {f} node {k}");
            }
        }
    }
}
''', ["fenris", "nalgebra"])

bug("b27-component-start", "P27", "a disconnected graph whose second component does not begin with its vertex of least degree",
    "components after the first are not started at a vertex of least degree",
    [("src/mesh/reorder.rs", "            .filter(|vertex_idx| visited[*vertex_idx] == false)\n            .min_by_key(|vertex_idx| adjacent_vertices(*vertex_idx).len());\n",
      "            .filter(|vertex_idx| visited[*vertex_idx] == false)\n            .min_by_key(|vertex_idx| {\n                if permutation.is_empty() {\n                    adjacent_vertices(*vertex_idx).len()\n                } else {\n                    0\n                }\n            });\n")],
    '''use fenris::mesh::reorder::cuthill_mckee;
use fenris::nalgebra_sparse::CsrMatrix;
use nalgebra::DMatrix;
fn main() {
    // an isolated vertex, and a star with its centre first
    let m = DMatrix::from_row_slice(4, 4, &[1, 0, 0, 0, 0, 1, 1, 1, 0, 1, 1, 0, 0, 1, 0, 1]);
    let p = cuthill_mckee(CsrMatrix::from(&m).pattern());
    assert_eq!(p.perm()[0], 0);
    assert_ne!(p.perm()[1], 1, "{:?}", p.perm());
}
''', ["fenris", "nalgebra"])

bug("b05-first-corner", "P05", "a query point closest to vertex 0 of a polygon whose corner there is sharp",
    "the pseudonormal at the start of an edge is averaged with the wrong neighbour, so the sign of the distance near vertex 0 is wrong",
    [("fenris-geometry/src/polygon.rs", "let previous_idx = ((edge_index + self.num_edges()) - 1) % self.num_edges();", "let previous_idx = edge_index.saturating_sub(1);")],
    '''use fenris_geometry::{Polygon2d, SimplePolygon2d};
use nalgebra::point;
fn main() {
    // sharp corner at vertex 0; a point beyond it, on the far side of the first edge's line
    let p = SimplePolygon2d::from_vertices(vec![point![0.0, 0.0], point![12.0, -5.0], point![12.0, 5.0]]);
    let e = p.closest_edge(&point![-1.0, 0.5]).unwrap();
    assert!(e.signed_distance > 0.0, "{e:?}");
    let e = p.closest_edge(&point![-0.25, 2.0]).unwrap();
    assert!(e.signed_distance > 0.0, "{e:?}");
    let e = p.closest_edge(&point![-0.75, -2.0]).unwrap();
    assert!(e.signed_distance > 0.0, "{e:?}");
    let e = p.closest_edge(&point![-0.01, 1.0]).unwrap();
    assert!(e.signed_distance > 0.0, "{e:?}");
}
''', ["fenris-geometry", "nalgebra"])

bug("b06-last-edge", "P05", "a point whose closest point on a face lies on the face's last edge",
    "the last edge of a convex polygon in space is not considered for the closest point",
    [("fenris-geometry/src/lib.rs", "            for i in 0..self.num_vertices() {\n                let v1 = self.get_vertex(i).unwrap();\n                let v2 = self.get_vertex((i + 1) % self.num_vertices()).unwrap();\n                let segment",
      "            for i in 0..self.num_vertices() - 1 {\n                let v1 = self.get_vertex(i).unwrap();\n                let v2 = self.get_vertex((i + 1) % self.num_vertices()).unwrap();\n                let segment")],
    '''use fenris_geometry::{ConvexPolygon3d, Triangle};
use nalgebra::{distance, point};
fn main() {
    let t = Triangle([point![0.0, 0.0, 0.0], point![3.0, 0.0, 0.0], point![0.0, 4.0, 0.0]]);
    let r = t.closest_point(&point![-1.0, 2.0, 1.0]);
    assert!(distance(&r.closest_point, &point![0.0, 2.0, 0.0]) < 1e-12, "{r:?}");
}
''', ["fenris-geometry", "nalgebra"])

bug("b06b-sdf-inside", "P05", "a point inside a signed distance box, nearer to the sides of one axis",
    "inside a box the signed distance function reports the distance to the wrong pair of sides",
    [("fenris-geometry/src/sdf.rs", "T::min(T::zero(), d[d.imax()])", "T::min(T::zero(), d[p.imax()])")],
    '''use fenris_geometry::sdf::{SdfAxisAlignedBox, SignedDistanceFunction2d};
use fenris_geometry::AxisAlignedBoundingBox;
use nalgebra::point;
fn main() {
    let s = SdfAxisAlignedBox { aabb: AxisAlignedBoundingBox::new(point![-1.0, -1.0], point![1.0, 1.0]) };
    assert!((s.eval(&point![-0.75, 0.25]) - -0.25f64).abs() < 1e-12, "{}", s.eval(&point![-0.75, 0.25]));
    assert!((s.eval(&point![0.75, 0.25]) - -0.25f64).abs() < 1e-12);
}
''', ["fenris-geometry", "nalgebra"])

bug("b01-touch-order", "P01", "two boxes that touch, asked in one of the two orders",
    "boxes that merely touch are reported as intersecting only in one order",
    [(GL, "l2 <= u1 && u2 >= l1", "l2 <= u1 && u2 > l1")],
    '''use fenris_geometry::AxisAlignedBoundingBox;
use nalgebra::point;
fn main() {
    let a = AxisAlignedBoundingBox::new(point![0.0, 0.0], point![1.0, 1.0f64]);
    let b = AxisAlignedBoundingBox::new(point![1.0, 0.0], point![2.0, 1.0]);
    assert_eq!(a.intersects(&b), b.intersects(&a));
    assert!(b.intersects(&a));
}
''', ["fenris-geometry", "nalgebra"])

bug("b02-plane-parallel", "P02", "a segment parallel to a plane and lying in it",
    "the closest parameter of a segment lying in a plane is not a number",
    [(LN, "            if nTy.abs() >= nTd.abs() {", "            if nTy.abs() > nTd.abs() {")],
    '''use fenris_geometry::{LineSegment3d, Plane};
use nalgebra::{point, vector, Unit};
fn main() {
    let p = Plane::from_point_and_normal(point![0.0, 0.0, 1.0], Unit::new_unchecked(vector![0.0, 0.0, 1.0]));
    let s = LineSegment3d::from_end_points(point![0.0, 0.0, 1.0], point![2.0, 1.0, 1.0f64]);
    let t = s.closest_point_to_plane_parametric(&p);
    assert!((0.0..=1.0).contains(&t), "{t}");
}
''', ["fenris-geometry", "nalgebra"])

bug("b19-stale-clear", "P19", "a cleared vector that is filled again and compared with a fresh one",
    "clearing a nested vector forgets its arrays but keeps their elements, so refilling it does not equal the same vector built afresh",
    [("fenris-nested-vec/src/lib.rs", "        self.offsets_begin.clear();\n        self.data.clear();\n    }\n}\n", "        self.offsets_begin.clear();\n    }\n}\n")],
    '''use fenris_nested_vec::NestedVec;
fn main() {
    let mut v = NestedVec::new();
    v.push(&[1, 2]);
    v.clear();
    v.push(&[3]);
    let mut w = NestedVec::new();
    w.push(&[3]);
    assert_eq!(v, w);
}
''', ["fenris-nested-vec"])

bug("b20-zero-rhs", "P20", "a zero right-hand side with a nonzero initial guess",
    "conjugate gradients report success for a zero right-hand side but leave the initial guess in the solution",
    [("fenris-sparse/src/cg.rs", "            x.fill(T::zero());\n", "")],
    '''use fenris_sparse::cg::{ConjugateGradient, RelativeResidualCriterion};
use nalgebra::{dvector, DMatrix};
fn main() {
    let a = DMatrix::<f64>::identity(2, 2) * 3.0;
    let mut x = dvector![1.0, -2.0];
    let r = ConjugateGradient::new()
        .with_operator(&a)
        .with_stopping_criterion(RelativeResidualCriterion::new(1e-10))
        .solve_with_guess(&dvector![0.0, 0.0], &mut x);
    assert!(r.is_ok());
    assert!(x.norm() < 1e-12, "{x}");
}
''', ["fenris-sparse", "nalgebra"])

bug("b21-small-step", "P21", "a direction so long that only a step below one percent decreases the residual",
    "the backtracking line search gives up at a hundredth of the direction instead of a millionth",
    [("fenris-optimize/src/newton.rs", "let alpha_min = 1e-6;", "let alpha_min = 1e-2;")],
    '''use fenris_optimize::calculus::VectorFunction;
use fenris_optimize::newton::{BacktrackingLineSearch, LineSearch};
use nalgebra::{dvector, DVectorView, DVectorViewMut};
struct Square;
impl VectorFunction<f64> for Square {
    fn dimension(&self) -> usize {
        1
    }
    fn eval_into(&mut self, f: &mut DVectorViewMut<f64>, x: &DVectorView<f64>) {
        f[0] = x[0] * x[0] * x[0] + x[0];
    }
}
fn main() {
    let (mut f, mut x) = (dvector![2.0], dvector![1.0]);
    let d = dvector![-2000.0];
    let r = BacktrackingLineSearch.step(&mut Square, (&mut f).into(), (&mut x).into(), (&d).into());
    assert!(r.is_ok(), "{:?}", r.err().map(|e| e.to_string()));
    assert!(f[0].abs() < 2.0);
}
''', ["fenris-optimize", "nalgebra"])

bug("b25-open-cell", "P25", "a polyhedral cell of four triangles whose second face has two vertices outside the first face",
    "a cell of four triangles that do not form a tetrahedron is converted to a tetrahedron instead of being refused",
    [("src/mesh_convert.rs", "                for i in 1..4 {\n                    let face = get_face(cell[i]);", "                // The first of the remaining faces already determined the apex\n                for i in 2..4 {\n                    let face = get_face(cell[i]);")],
    '''use fenris::geometry::polymesh::PolyMesh3d;
use fenris::mesh::Tet4Mesh;
use fenris_nested_vec::NestedVec;
use nalgebra::point;
use std::convert::TryFrom;
fn main() {
    let v = vec![point![0.0, 0.0, 0.0], point![1.0, 0.0, 0.0], point![0.0, 1.0, 0.0], point![0.0, 0.0, 1.0], point![1.0, 1.0, 1.0f64]];
    let mesh = |second: [usize; 3]| {
        let (mut faces, mut cells) = (NestedVec::new(), NestedVec::new());
        for f in [[0, 2, 1], second, [1, 2, 3], [0, 3, 2]] {
            faces.push(&f);
        }
        cells.push(&[0, 1, 2, 3]);
        PolyMesh3d::from_poly_data(v.clone(), faces, cells)
    };
    assert!(Tet4Mesh::try_from(&mesh([0, 1, 3])).is_ok());
    assert!(Tet4Mesh::try_from(&mesh([0, 3, 4])).is_err());
}
''', ["fenris", "fenris-nested-vec", "nalgebra"])

bug("b29-wide-gradient", "P29", "a solution with more components than the space has dimensions",
    "the seminorm error of solutions with more components than dimensions ignores the additional components",
    [("src/error.rs", "        let error = u_h_grad - u_grad_at_x;\n        Vector1::new(error.norm_squared())\n    };\n    FnFunction",
      "        let error = u_h_grad - u_grad_at_x;\n        Vector1::new(error.columns(0, error.nrows().min(error.ncols())).norm_squared())\n    };\n    FnFunction")],
    '''use fenris::connectivity::Tri3d2Connectivity;
use fenris::error::estimate_H1_seminorm_error_squared;
use fenris::mesh::Mesh2d;
use fenris::quadrature::CanonicalMassQuadrature;
use nalgebra::{point, DVector, Matrix2x3, Point2};
fn main() {
    let m = Mesh2d::from_vertices_and_connectivity(vec![point![0.0, 0.0], point![1.0, 0.0], point![0.0, 1.0f64]], vec![Tri3d2Connectivity([0, 1, 2])]);
    let q = m.canonical_mass_quadrature();
    // u = (0, 0, x)
    let mut u = DVector::zeros(9);
    u[5] = 1.0;
    let e: f64 = estimate_H1_seminorm_error_squared(&m, &|_: &Point2<f64>| Matrix2x3::<f64>::zeros(), &u, &q).unwrap();
    assert!((e - 0.5).abs() < 1e-12, "{e}");
}
''', ["fenris", "nalgebra"])
