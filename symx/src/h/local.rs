//! P13 (elliptic operators), P14 (mass matrix, source vector), P17 (adapters, tables, buffers): local assembly.
use super::fe::*;
use super::util::*;
use crate::h;
use fenris::allocators::BiDimAllocator;
use fenris::assembly::buffers::*;
use fenris::assembly::local::*;
use fenris::assembly::operators::*;
use fenris::connectivity::*;
use fenris::element::*;
use fenris::mesh::Mesh;
use fenris::quadrature::{CanonicalMassQuadrature, QuadraturePair};
use fenris::space::{FiniteElementConnectivity, FiniteElementSpace};
use fenris::{SmallDim, Symmetry};
use fenris_nested_vec::NestedVec;
use nalgebra::allocator::Allocator;

const B: f64 = 4.0;

/// Operator parameters.
#[derive(Clone, Debug)]
pub struct P<T>(pub T, pub T);
impl<T: Real> Default for P<T> {
    fn default() -> Self {
        P(T::zero(), T::zero())
    }
}

macro_rules! operators {
    ($($cubic:ident $skew:ident $s:ident;)*) => {$(
/// psi(G) = p0/2 G:G + p1/3 G_00^3: a nonlinear energy with symmetric second derivatives.
pub struct $cubic;
impl<T: Real, D: SmallDim> Operator<T, D> for $cubic {
    type SolutionDim = $s;
    type Parameters = P<T>;
}
impl<T: Real, D: SmallDim> EllipticEnergy<T, D> for $cubic
where
    DefaultAllocator: BiDimAllocator<T, D, $s>,
{
    fn compute_energy(&self, g: &OMatrix<T, D, $s>, p: &P<T>) -> T {
        p.0 * g.dot(g) / (T::one() + T::one()) + p.1 * g[(0, 0)] * g[(0, 0)] * g[(0, 0)] / T::from_i64(3).unwrap()
    }
}
impl<T: Real, D: SmallDim> EllipticOperator<T, D> for $cubic
where
    DefaultAllocator: BiDimAllocator<T, D, $s>,
{
    fn compute_elliptic_operator(&self, g: &OMatrix<T, D, $s>, p: &P<T>) -> OMatrix<T, D, $s> {
        let mut r = g * p.0;
        r[(0, 0)] += p.1 * g[(0, 0)] * g[(0, 0)];
        r
    }
}
impl<T: Real, D: SmallDim> EllipticContraction<T, D> for $cubic
where
    DefaultAllocator: BiDimAllocator<T, D, $s>,
{
    fn contract(&self, g: &OMatrix<T, D, $s>, a: &OVector<T, D>, b: &OVector<T, D>, p: &P<T>) -> OMatrix<T, $s, $s> {
        let mut r = OMatrix::<T, $s, $s>::identity() * (p.0 * a.dot(b));
        r[(0, 0)] += (T::one() + T::one()) * p.1 * g[(0, 0)] * a[0] * b[0];
        r
    }
    fn symmetry(&self) -> Symmetry {
        Symmetry::Symmetric
    }
}

/// g(G) = p0 G + p1 G_00^2 M / 2 with a constant matrix M: no energy, nonsymmetric derivative.
pub struct $skew;
impl<T: Real, D: SmallDim> Operator<T, D> for $skew {
    type SolutionDim = $s;
    type Parameters = P<T>;
}
impl<T: Real, D: SmallDim> EllipticOperator<T, D> for $skew
where
    DefaultAllocator: BiDimAllocator<T, D, $s>,
{
    fn compute_elliptic_operator(&self, g: &OMatrix<T, D, $s>, p: &P<T>) -> OMatrix<T, D, $s> {
        g * p.0 + m_of::<T, D, $s>() * (p.1 * g[(0, 0)] * g[(0, 0)] / (T::one() + T::one()))
    }
}
impl<T: Real, D: SmallDim> EllipticContraction<T, D> for $skew
where
    DefaultAllocator: BiDimAllocator<T, D, $s>,
{
    fn contract(&self, g: &OMatrix<T, D, $s>, a: &OVector<T, D>, b: &OVector<T, D>, p: &P<T>) -> OMatrix<T, $s, $s> {
        let mut r = OMatrix::<T, $s, $s>::identity() * (p.0 * a.dot(b));
        let m = m_of::<T, D, $s>();
        for i in 0..$s::dim() {
            for k in 0..D::dim() {
                r[(i, 0)] += p.1 * g[(0, 0)] * a[k] * m[(k, i)] * b[0];
            }
        }
        r
    }
}
    )*};
}
operators! {
    Cubic Skew U2;
    Cubic1 Skew1 U1;
    Cubic3 Skew3 U3;
}
fn m_of<T: Real, D: SmallDim, S: SmallDim>() -> OMatrix<T, D, S>
where
    DefaultAllocator: Allocator<T, D, S>,
{
    OMatrix::<T, D, S>::from_fn(|i, j| T::from_i64((3 * i + 2 * j) as i64 + 1).unwrap())
}

/// Source depending on position and parameters.
pub struct Src;
impl<T: Real, D: SmallDim> Operator<T, D> for Src {
    type SolutionDim = U2;
    type Parameters = P<T>;
}
macro_rules! src_fn {
    ($($d:ident)*) => {$(
        impl<T: Real> SourceFunction<T, $d> for Src {
            fn evaluate(&self, x: &OPoint<T, $d>, p: &P<T>) -> Vector2<T> {
                src(x, p)
            }
        }
    )*};
}
src_fn! {U2 U3}
fn src<T: Real, D: SmallDim>(x: &OPoint<T, D>, p: &P<T>) -> Vector2<T>
where
    DefaultAllocator: Allocator<T, D>,
{
    Vector2::new(p.0 * x[0] * x[D::dim() - 1] + p.1, p.1 * x[0] - p.0)
}

fn params<T: Real, C: Cx<T>>(c: &mut C, n: usize, name: &str) -> Vec<P<T>> {
    (0..n).map(|i| P(c.var(&format!("{name}{i}a"), -B, B), c.var(&format!("{name}{i}b"), -B, B))).collect()
}
fn vars<T: Real, C: Cx<T>>(c: &mut C, n: usize, name: &str) -> Vec<T> {
    (0..n).map(|i| c.var(&format!("{name}{i}"), -B, B)).collect()
}
macro_rules! elliptic {
    ($($n:ident $e:ident $d:ident $p:expr, $cubic:ident $skew:ident $s:ident;)*) => {$(
        /// Energy, vector and matrix of a distorted element are consistent for all nodal values, weights and parameters.
        fn $n<T: Real, C: Cx<T>>(c: &mut C) {
            let r = $e::<T>::reference();
            let e = $e::from_vertices(std::array::from_fn(|k| wiggle(c, k, &r.vertices()[k])));
            let n = e.num_nodes();
            let s = $s::dim();
            let points = fixed_points::<T, $d, C>(c, $p);
            let w = vars(c, $p, "w");
            let data = params(c, $p, "p");
            let u = vars(c, s * n, "u");
            let energy = |u: &[T]| {
                let mut g = OMatrix::<T, $d, Dyn>::zeros(n);
                vec![compute_element_elliptic_energy(&e, &$cubic, DVectorView::from_slice(u, s * n), &w, &points, &data, MatrixViewMut::from(&mut g)).unwrap()]
            };
            let vector = |u: &[T]| {
                let mut g = OMatrix::<T, $d, Dyn>::zeros(n);
                let mut o = DVector::from_element(s * n, T::one());
                assemble_element_elliptic_vector((&mut o).into(), &e, &$cubic, DVectorView::from_slice(u, s * n), &w, &points, &data, MatrixViewMut::from(&mut g)).unwrap();
                o.as_slice().to_vec()
            };
            let skew = |u: &[T]| {
                let mut g = OMatrix::<T, $d, Dyn>::zeros(n);
                let mut o = DVector::from_element(s * n, T::one());
                assemble_element_elliptic_vector((&mut o).into(), &e, &$skew, DVectorView::from_slice(u, s * n), &w, &points, &data, MatrixViewMut::from(&mut g)).unwrap();
                o.as_slice().to_vec()
            };
            let mut g = OMatrix::<T, $d, Dyn>::zeros(n);
            let mut m = DMatrix::from_element(s * n, s * n, T::one());
            assemble_element_elliptic_matrix((&mut m).into(), &e, &$cubic, DVectorView::from_slice(&u, s * n), &w, &points, &data, MatrixViewMut::from(&mut g)).unwrap();
            let mut ms = DMatrix::from_element(s * n, s * n, T::one());
            assemble_element_elliptic_matrix((&mut ms).into(), &e, &$skew, DVectorView::from_slice(&u, s * n), &w, &points, &data, MatrixViewMut::from(&mut g)).unwrap();
            // energy from the definition
            let mut want = T::zero();
            for k in 0..$p {
                let j = dmat(&e.reference_jacobian(&points[k]));
                let gp = phys_grads(&j, &dyn_grads(&grads_of(&e, &points[k])));
                let gu = OMatrix::<T, $d, $s>::from_fn(|a, b| (0..n).fold(T::zero(), |t, i| t + gp[(a, i)] * u[s * i + b]));
                want += w[k] * det(&j).abs() * $cubic.compute_energy(&gu, &data[k]);
            }
            c.eq("energy is the weighted sum of the energy density", energy(&u)[0], want);
            let v = vector(&u);
            let de = c.jacobian(&u, &energy);
            for i in 0..s * n {
                c.eq_diff("element vector is the derivative of the energy", v[i], de[0][i]);
            }
            let dv = c.jacobian(&u, &vector);
            let ds = c.jacobian(&u, &skew);
            for i in 0..s * n {
                for k in 0..s * n {
                    c.eq_diff("element matrix is the derivative of the vector", m[(i, k)], dv[i][k]);
                    c.eq_diff("nonsymmetric element matrix is the derivative of the vector", ms[(i, k)], ds[i][k]);
                }
            }
        }
    )*};
}
elliptic! {
    elliptic_tri3 Tri3d2Element U2 2, Cubic Skew U2;
    elliptic_tri6 Tri6d2Element U2 2, Cubic Skew U2;
    elliptic_quad4 Quad4d2Element U2 2, Cubic Skew U2;
    elliptic_quad9 Quad9d2Element U2 2, Cubic Skew U2;
    elliptic_tet4 Tet4Element U3 2, Cubic Skew U2;
    elliptic_tet10 Tet10Element U3 1, Cubic Skew U2;
    elliptic_hex8 Hex8Element U3 1, Cubic Skew U2;
    elliptic_tet20 Tet20Element U3 1, Cubic Skew U2;
    elliptic_hex20 Hex20Element U3 1, Cubic Skew U2;
    elliptic_hex27 Hex27Element U3 1, Cubic Skew U2;
    elliptic_tri3_scalar Tri3d2Element U2 2, Cubic1 Skew1 U1;
    elliptic_tri3_wide Tri3d2Element U2 1, Cubic3 Skew3 U3;
    elliptic_tet4_vector Tet4Element U3 1, Cubic3 Skew3 U3;
}

macro_rules! laplace {
    ($($n:ident $e:ident $d:ident;)*) => {$(
        /// Stiffness matrix of an arbitrary element at an arbitrary quadrature point.
        fn $n<T: Real, C: Cx<T>>(c: &mut C) {
            let e = $e::<T>::mk(c, "v", B);
            let n = e.num_nodes();
            let xi = ptn::<T, $d, C>(c, "xi", 1.0);
            let w = c.var("w", -B, B);
            let u = vars(c, n, "u");
            let j = dmat(&e.reference_jacobian(&xi));
            c.assume_ne(det(&j), T::zero());
            let gp = phys_grads(&j, &dyn_grads(&grads_of(&e, &xi)));
            let s = w * det(&j).abs();
            let mut g = OMatrix::<T, $d, Dyn>::zeros(n);
            let mut m = DMatrix::from_element(n, n, T::one());
            let uv = DVectorView::from_slice(&u, n);
            let ok = assemble_element_elliptic_matrix((&mut m).into(), &e, &LaplaceOperator, uv, &[w], &[xi], &[()], MatrixViewMut::from(&mut g)).is_ok();
            c.holds("a regular element assembles", ok);
            let mut o = DVector::from_element(n, T::one());
            let ok = assemble_element_elliptic_vector((&mut o).into(), &e, &LaplaceOperator, uv, &[w], &[xi], &[()], MatrixViewMut::from(&mut g)).is_ok();
            c.holds("a regular element assembles", ok);
            for a in 0..n {
                let mut row = T::zero();
                for b in 0..n {
                    c.eq("stiffness entry", m[(a, b)], s * gp.column(a).dot(&gp.column(b)));
                    row += m[(a, b)] * u[b];
                }
                c.eq("stiffness times nodal values is the vector", o[a], row);
            }
            let e = compute_element_elliptic_energy(&e, &LaplaceOperator, uv, &[w], &[xi], &[()], MatrixViewMut::from(&mut g)).unwrap();
            let half = (0..n).fold(T::zero(), |s, a| s + o[a] * u[a]) / c.int(2);
            c.eq("Dirichlet energy is half the quadratic form", e, half);
        }
    )*};
}
laplace! {
    laplace_tri3 Tri3d2Element U2;
    laplace_tet4 Tet4Element U3;
}
fn singular<T: Real, C: Cx<T>>(c: &mut C) {
    let (a, b, s) = (pt2(c, "a", B), pt2(c, "b", B), c.var("s", -B, B));
    let e = Tri3d2Element::from_vertices([a, b, a + (b - a) * s]);
    let u = vars(c, 3, "u");
    let xi = pt2(c, "xi", 1.0);
    let w = c.var("w", -B, B);
    let mut g = OMatrix::<T, U2, Dyn>::zeros(3);
    let (mut m, mut o) = (DMatrix::zeros(3, 3), DVector::zeros(3));
    let uv = DVectorView::from_slice(&u, 3);
    let r1 = assemble_element_elliptic_matrix((&mut m).into(), &e, &LaplaceOperator, uv, &[w], &[xi], &[()], MatrixViewMut::from(&mut g)).is_err();
    let r2 = assemble_element_elliptic_vector((&mut o).into(), &e, &LaplaceOperator, uv, &[w], &[xi], &[()], MatrixViewMut::from(&mut g)).is_err();
    let r3 = compute_element_elliptic_energy(&e, &LaplaceOperator, uv, &[w], &[xi], &[()], MatrixViewMut::from(&mut g)).is_err();
    c.holds("a singular element is an error", r1 && r2 && r3);
}
/// A block of a larger matrix (of arbitrary contents) receives the same element matrix; its surroundings are untouched.
fn in_block<T: Real, C: Cx<T>>(c: &mut C, n: usize, f: impl Fn(DMatrixViewMut<T>)) {
    let mut whole = DMatrix::from_element(n, n, T::one());
    f((&mut whole).into());
    let prev = DMatrix::from_fn(n + 3, n + 2, |i, j| T::from_usize(3 + i * 5 + j).unwrap());
    let mut big = prev.clone();
    f(big.view_mut((2, 1), (n, n)));
    for i in 0..n + 3 {
        for j in 0..n + 2 {
            let inside = i >= 2 && i < n + 2 && j >= 1 && j < n + 1;
            let want = if inside { whole[(i - 2, j - 1)] } else { prev[(i, j)] };
            c.eq("block of a larger matrix", big[(i, j)], want);
        }
    }
}
fn blocks<T: Real, C: Cx<T>>(c: &mut C) {
    let r = Quad4d2Element::<T>::reference();
    let e = Quad4d2Element::from_vertices(std::array::from_fn(|k| wiggle(c, k, &r.vertices()[k])));
    let points = fixed_points::<T, U2, C>(c, 2);
    let w = vars(c, 2, "w");
    let u = vars(c, 8, "u");
    let data = params(c, 2, "p");
    let which = c.choose("matrix", 4);
    in_block(c, if which == 2 { 4 } else { 8 }, |o| {
        let mut g = OMatrix::<T, U2, Dyn>::zeros(4);
        let g = MatrixViewMut::from(&mut g);
        match which {
            0 => assemble_element_elliptic_matrix(o, &e, &Cubic, DVectorView::from_slice(&u, 8), &w, &points, &data, g).unwrap(),
            1 => assemble_element_elliptic_matrix(o, &e, &Skew, DVectorView::from_slice(&u, 8), &w, &points, &data, g).unwrap(),
            2 => assemble_element_elliptic_matrix(o, &e, &LaplaceOperator, DVectorView::from_slice(&u, 4), &w, &points, &[(), ()], g).unwrap(),
            _ => assemble_element_mass_matrix(o, &e, &w, &points, &u[..2], 2, &mut vec![T::one(); 4]).unwrap(),
        }
    });
}
/// accumulate_contractions_into against the single contraction, for rectangular arguments.
fn contractions<T: Real, C: Cx<T>>(c: &mut C) {
    let (na, nb) = (1 + c.choose("a", 3), 1 + c.choose("b", 3));
    let sym = c.choose("symmetric", 2) == 1;
    let a = DVector::from_vec(vars(c, 2 * na, "a"));
    let b = DVector::from_vec(vars(c, 2 * nb, "b"));
    let g = Matrix2::from_fn(|i, j| c.var(&format!("g{i}{j}"), -B, B));
    let p = params(c, 1, "p").remove(0);
    let alpha = c.var("alpha", -B, B);
    let prev = DMatrix::from_fn(2 * na, 2 * nb, |i, j| c.var(&format!("o{i}{j}"), -B, B));
    let mut o = prev.clone();
    if sym {
        Cubic.accumulate_contractions_into((&mut o).into(), alpha, &g, (&a).into(), (&b).into(), &p);
    } else {
        Skew.accumulate_contractions_into((&mut o).into(), alpha, &g, (&a).into(), (&b).into(), &p);
    }
    for i in 0..na {
        for j in 0..nb {
            let (ai, bj) = (Vector2::new(a[2 * i], a[2 * i + 1]), Vector2::new(b[2 * j], b[2 * j + 1]));
            let k = if sym { Cubic.contract(&g, &ai, &bj, &p) } else { Skew.contract(&g, &ai, &bj, &p) };
            for r in 0..2 {
                for s in 0..2 {
                    let (x, y) = (2 * i + r, 2 * j + s);
                    if !sym || i <= j {
                        c.eq("block contraction is accumulated", o[(x, y)], prev[(x, y)] + alpha * k[(r, s)]);
                    }
                }
            }
        }
    }
}

/// The mesh-level assembler of an element equals the local routine on that element's own data.
fn elliptic_assembler<T: Real, C: Cx<T>>(c: &mut C) {
    let (mesh, rules) = mesh_and_rules(c);
    let u = DVector::from_vec(vars(c, 8, "u"));
    let (table, data) = table_of(c, &rules);
    let a = ElementEllipticAssemblerBuilder::new()
        .with_finite_element_space(&mesh)
        .with_operator(&Cubic)
        .with_quadrature_table(&table)
        .with_u(&u)
        .build();
    connectivity_ok(c, &a, &mesh, 2);
    let order = if c.choose("order", 2) == 0 { [0, 1] } else { [1, 0] };
    for k in order {
        let (e, ids) = elem_of(&mesh, k);
        let ul = DVector::from_iterator(6, ids.iter().flat_map(|i| [u[2 * i], u[2 * i + 1]]));
        let mut g = OMatrix::<T, U2, Dyn>::zeros(3);
        let (w, x) = &rules[k];
        let want = compute_element_elliptic_energy(&e, &Cubic, (&ul).into(), w, x, &data[k], MatrixViewMut::from(&mut g)).unwrap();
        c.eq("energy of the element", a.assemble_element_scalar(k).unwrap(), want);
        let mut o = DVector::zeros(6);
        assemble_element_elliptic_vector((&mut o).into(), &e, &Cubic, (&ul).into(), w, x, &data[k], MatrixViewMut::from(&mut g)).unwrap();
        same_slice(c, "vector of the element", a.assemble_element_vector(k).unwrap().as_slice(), o.as_slice());
        let mut m = DMatrix::zeros(6, 6);
        assemble_element_elliptic_matrix((&mut m).into(), &e, &Cubic, (&ul).into(), w, x, &data[k], MatrixViewMut::from(&mut g)).unwrap();
        same_slice(c, "matrix of the element", a.assemble_element_matrix(k).unwrap().as_slice(), m.as_slice());
    }
}
type M2<T> = Mesh<T, U2, Tri3d2Connectivity>;
fn mesh_and_rules<T: Real, C: Cx<T>>(c: &mut C) -> (M2<T>, Vec<QuadraturePair<T, U2>>) {
    let v = [(0, 0), (5, 1), (1, 4), (6, 7)].map(|(x, y)| Point2::new(c.int(x), c.int(y))).to_vec();
    let shift = vec2(c, "shift", B);
    let v = v.into_iter().map(|p| p + shift).collect();
    let mesh = M2::from_vertices_and_connectivity(v, vec![Tri3d2Connectivity([1, 2, 0]), Tri3d2Connectivity([3, 2, 1])]);
    let rules = (0..2)
        .map(|k| {
            let n = 2 - k;
            let w = vars(c, n, &format!("w{k}"));
            let p = (0..n).map(|i| ptn::<T, U2, C>(c, &format!("xi{k}{i}"), 1.0)).collect();
            (w, p)
        })
        .collect();
    (mesh, rules)
}
fn table_of<T: Real, C: Cx<T>>(c: &mut C, rules: &[QuadraturePair<T, U2>]) -> (GeneralQuadratureTable<T, U2, P<T>>, Vec<Vec<P<T>>>) {
    let (mut ps, mut ws, mut ds, mut data) = (NestedVec::new(), NestedVec::new(), NestedVec::new(), vec![]);
    for (k, r) in rules.iter().enumerate() {
        ps.push(&r.1);
        ws.push(&r.0);
        let d = params(c, r.0.len(), &format!("p{k}"));
        ds.push(&d);
        data.push(d);
    }
    (GeneralQuadratureTable::from_points_weights_and_data(ps, ws, ds), data)
}
fn elem_of<T: Real>(mesh: &M2<T>, k: usize) -> (Tri3d2Element<T>, [usize; 3]) {
    let ids = mesh.connectivity()[k].0;
    (Tri3d2Element::from_vertices(ids.map(|i| mesh.vertices()[i])), ids)
}
fn connectivity_ok<T: Real, C: Cx<T>>(c: &mut C, a: &impl ElementConnectivityAssembler, mesh: &M2<T>, s: usize) {
    c.holds("dimensions", a.solution_dim() == s && a.num_elements() == 2 && a.num_nodes() == 4);
    for k in 0..2 {
        let mut n = vec![99; a.element_node_count(k)];
        a.populate_element_nodes(&mut n, k);
        c.holds("element nodes", n == mesh.connectivity()[k].0);
    }
}

macro_rules! mass {
    ($($n:ident $e:ident $d:ident $p:expr;)*) => {$(
        /// Mass matrix and source vector of an arbitrary element with an arbitrary rule.
        fn $n<T: Real, C: Cx<T>>(c: &mut C) {
            let e = $e::<T>::mk(c, "v", B);
            let n = e.num_nodes();
            // Solutions with more components than the space has dimensions as well, for the smaller elements
            let s = [1, 2, 3, 5][c.choose("solution dimension", if n <= 4 { 4 } else { 3 })];
            let x: Vec<_> = (0..$p).map(|i| ptn::<T, $d, C>(c, &format!("xi{i}"), 1.0)).collect();
            let w = vars(c, $p, "w");
            let rho = vars(c, $p, "rho");
            let data = params(c, $p, "p");
            let mut m = DMatrix::from_element(s * n, s * n, T::one());
            let mut buf = vec![T::one(); n];
            assemble_element_mass_matrix(&mut m, &e, &w, &x, &rho, s, &mut buf).unwrap();
            let phi: Vec<Vec<T>> = x.iter().map(|x| basis_of(&e, x)).collect();
            let dj: Vec<T> = x.iter().map(|x| e.reference_jacobian(x).determinant().abs()).collect();
            for a in 0..n {
                for b in 0..n {
                    let want = (0..$p).fold(T::zero(), |t, k| t + w[k] * dj[k] * rho[k] * (phi[k][a] * phi[k][b]));
                    for i in 0..s {
                        for j in 0..s {
                            c.eq("mass block", m[(s * a + i, s * b + j)], if i == j { want } else { T::zero() });
                        }
                    }
                }
            }
            if s == 2 {
                let mut o = DVector::from_element(2 * n, T::one());
                assemble_element_source_vector((&mut o).into(), &e, &Src, &w, &x, &data, &mut buf);
                for a in 0..n {
                    for i in 0..2 {
                        let want = (0..$p).fold(T::zero(), |t, k| t + w[k] * dj[k] * (src(&e.map_reference_coords(&x[k]), &data[k])[i] * phi[k][a]));
                        c.eq("source entry", o[2 * a + i], want);
                    }
                }
            }
        }
    )*};
}
mass! {
    mass_tri3 Tri3d2Element U2 2;
    mass_tri6 Tri6d2Element U2 2;
    mass_quad4 Quad4d2Element U2 2;
    mass_quad9 Quad9d2Element U2 1;
    mass_tet4 Tet4Element U3 2;
    mass_tet10 Tet10Element U3 1;
    mass_hex8 Hex8Element U3 1;
    mass_hex20 Hex20Element U3 1;
}
fn signed<T: Real, C: Cx<T>>(c: &mut C, d: T) -> T {
    if c.choose("orientation", 2) == 0 {
        c.assume_lt(T::zero(), d);
        d
    } else {
        c.assume_lt(d, T::zero());
        -d
    }
}
fn mass_exact<T: Real, C: Cx<T>>(c: &mut C) {
    // canonical rule on an arbitrary triangle / tetrahedron: vol/12 (1 + delta), vol/20 (1 + delta)
    let rho = c.var("rho", 0.25, 4.0);
    if c.choose("shape", 2) == 0 {
        let v = verts_of::<T, C, U2, 3>(c, "v", 2.0);
        let e = Tri3d2Element::from_vertices(v);
        let (w, x) = e.canonical_mass_quadrature();
        let area = signed(c, (v[1] - v[0]).perp(&(v[2] - v[0]))) / c.int(2);
        let mut m = DMatrix::zeros(3, 3);
        assemble_element_mass_matrix(&mut m, &e, &w, &x, &vec![rho; w.len()], 1, &mut [T::zero(); 3]).unwrap();
        for a in 0..3 {
            for b in 0..3 {
                c.eq_tol("exact mass matrix", m[(a, b)], rho * area * c.frac(if a == b { 2 } else { 1 }, 12), 1e-9);
            }
        }
    } else {
        let v = verts_of::<T, C, U3, 4>(c, "v", 2.0);
        let e = Tet4Element::from_vertices(v);
        let (w, x) = e.canonical_mass_quadrature();
        let vol = signed(c, (v[1] - v[0]).cross(&(v[2] - v[0])).dot(&(v[3] - v[0]))) / c.int(6);
        let mut m = DMatrix::zeros(4, 4);
        assemble_element_mass_matrix(&mut m, &e, &w, &x, &vec![rho; w.len()], 1, &mut [T::zero(); 4]).unwrap();
        for a in 0..4 {
            for b in 0..4 {
                c.eq_tol("exact mass matrix", m[(a, b)], rho * vol * c.frac(if a == b { 2 } else { 1 }, 20), 1e-9);
            }
        }
    }
}
fn mass_assembler<T: Real, C: Cx<T>>(c: &mut C) {
    let (mesh, rules) = mesh_and_rules(c);
    let (table, data) = table_of(c, &rules);
    let s = 1 + c.choose("solution dimension", 3);
    let (mut ps, mut ws, mut ds, mut rho) = (NestedVec::new(), NestedVec::new(), NestedVec::new(), vec![]);
    for (k, r) in rules.iter().enumerate() {
        ps.push(&r.1);
        ws.push(&r.0);
        let d = vars(c, r.0.len(), &format!("rho{k}"));
        ds.push(Density::from_inner_slice(&d));
        rho.push(d);
    }
    let densities = GeneralQuadratureTable::from_points_weights_and_data(ps, ws, ds);
    let a = ElementMassAssembler::with_solution_dim(s).with_space(&mesh).with_quadrature_table(&densities);
    connectivity_ok(c, &a, &mesh, s);
    let b = ElementSourceAssemblerBuilder::new()
        .with_finite_element_space(&mesh)
        .with_source(&Src)
        .with_quadrature_table(&table)
        .build::<T>();
    connectivity_ok(c, &b, &mesh, 2);
    let order = if c.choose("order", 2) == 0 { [0, 1] } else { [1, 0] };
    for k in order {
        let (e, _) = elem_of(&mesh, k);
        let (w, x) = &rules[k];
        let mut m = DMatrix::zeros(3 * s, 3 * s);
        let mut buf = vec![T::zero(); 3];
        assemble_element_mass_matrix(&mut m, &e, w, x, &rho[k], s, &mut buf).unwrap();
        same_slice(c, "mass matrix of the element", a.assemble_element_matrix(k).unwrap().as_slice(), m.as_slice());
        let mut o = DVector::zeros(6);
        assemble_element_source_vector((&mut o).into(), &e, &Src, w, x, &data[k], &mut buf);
        same_slice(c, "source vector of the element", b.assemble_element_vector(k).unwrap().as_slice(), o.as_slice());
    }
}

// ---- P17 ----

/// Element assembler with arbitrary (symbolic) local values over given connectivity.
pub struct Fake<T: Real> {
    pub s: usize,
    pub nodes: usize,
    pub conn: Vec<Vec<usize>>,
    pub mats: Vec<DMatrix<T>>,
    pub vecs: Vec<DVector<T>>,
    pub scal: Vec<T>,
}
impl<T: Real> Fake<T> {
    pub fn new<C: Cx<T>>(c: &mut C, name: &str, s: usize, nodes: usize, conn: Vec<Vec<usize>>) -> Self {
        let (mut mats, mut vecs, mut scal) = (vec![], vec![], vec![]);
        for (k, e) in conn.iter().enumerate() {
            let n = s * e.len();
            mats.push(DMatrix::from_fn(n, n, |i, j| c.var(&format!("{name}m{k}_{i}_{j}"), -B, B)));
            vecs.push(DVector::from_fn(n, |i, _| c.var(&format!("{name}v{k}_{i}"), -B, B)));
            scal.push(c.var(&format!("{name}s{k}"), -B, B));
        }
        Fake { s, nodes, conn, mats, vecs, scal }
    }
}
impl<T: Real> ElementConnectivityAssembler for Fake<T> {
    fn solution_dim(&self) -> usize {
        self.s
    }
    fn num_elements(&self) -> usize {
        self.conn.len()
    }
    fn num_nodes(&self) -> usize {
        self.nodes
    }
    fn element_node_count(&self, i: usize) -> usize {
        self.conn[i].len()
    }
    fn populate_element_nodes(&self, o: &mut [usize], i: usize) {
        o.copy_from_slice(&self.conn[i])
    }
}
impl<T: Real> FiniteElementConnectivity for Fake<T> {
    fn num_elements(&self) -> usize {
        self.conn.len()
    }
    fn num_nodes(&self) -> usize {
        self.nodes
    }
    fn element_node_count(&self, i: usize) -> usize {
        self.conn[i].len()
    }
    fn populate_element_nodes(&self, o: &mut [usize], i: usize) {
        o.copy_from_slice(&self.conn[i])
    }
}
impl<T: Real> ElementMatrixAssembler<T> for Fake<T> {
    fn assemble_element_matrix_into(&self, i: usize, mut o: DMatrixViewMut<T>) -> eyre::Result<()> {
        o.copy_from(&self.mats[i]);
        Ok(())
    }
}
impl<T: Real> ElementVectorAssembler<T> for Fake<T> {
    fn assemble_element_vector_into(&self, i: usize, mut o: DVectorViewMut<T>) -> eyre::Result<()> {
        o.copy_from(&self.vecs[i]);
        Ok(())
    }
}
impl<T: Real> ElementScalarAssembler<T> for Fake<T> {
    fn assemble_element_scalar(&self, i: usize) -> eyre::Result<T> {
        Ok(self.scal[i])
    }
}
fn aggregate<T: Real, C: Cx<T>>(c: &mut C) {
    let s = 1 + c.choose("solution dimension", 2);
    // sizes 0..2 of three assemblers, including empty ones
    let sizes: Vec<usize> = (0..3).map(|k| c.choose(&format!("elements {k}"), 3)).collect();
    let parts: Vec<Fake<T>> = (0..3)
        .map(|k| {
            let conn = (0..sizes[k]).map(|e| (0..1 + (k + e) % 2).map(|i| (2 * i + e + k) % 5).collect()).collect();
            Fake::new(c, &format!("a{k}"), s, 5, conn)
        })
        .collect();
    let a = AggregateElementAssembler::from_assemblers(&parts);
    c.holds("sizes", a.num_elements() == sizes.iter().sum::<usize>() && a.num_nodes() == 5 && a.solution_dim() == s);
    let mut i = 0;
    for p in &parts {
        for e in 0..p.conn.len() {
            let mut n = vec![9; a.element_node_count(i)];
            a.populate_element_nodes(&mut n, i);
            c.holds("nodes of the aggregated element", n == p.conn[e]);
            c.eq("scalar of the aggregated element", a.assemble_element_scalar(i).unwrap(), p.scal[e]);
            same_slice(c, "vector of the aggregated element", a.assemble_element_vector(i).unwrap().as_slice(), p.vecs[e].as_slice());
            same_slice(c, "matrix of the aggregated element", a.assemble_element_matrix(i).unwrap().as_slice(), p.mats[e].as_slice());
            i += 1;
        }
    }
}
fn transform<T: Real, C: Cx<T>>(c: &mut C) {
    let s = 1 + c.choose("solution dimension", 2);
    let conn = vec![vec![0, 1], vec![2, 0, 1]];
    let f = Fake::new(c, "f", s, 3, conn.clone());
    let (k, l) = (c.var("k", -B, B), c.var("l", -B, B));
    let which = c.choose("transformation", 4);
    fn check<T: Real, C: Cx<T>, A>(c: &mut C, a: &A, f: &Fake<T>, k: [T; 3], l: [T; 3], map: &dyn Fn(usize) -> usize, nodes: usize)
    where
        A: ElementScalarAssembler<T> + ElementVectorAssembler<T> + ElementMatrixAssembler<T>,
    {
        c.holds("sizes", a.num_elements() == 2 && a.num_nodes() == nodes && a.solution_dim() == f.s);
        for e in 0..2 {
            let mut n = vec![9; a.element_node_count(e)];
            a.populate_element_nodes(&mut n, e);
            c.holds("nodes", n.len() == f.conn[e].len() && n.iter().zip(&f.conn[e]).all(|(a, b)| *a == map(*b)));
            c.eq("scalar", a.assemble_element_scalar(e).unwrap(), f.scal[e] * k[0] + l[0]);
            same_slice(c, "vector", a.assemble_element_vector(e).unwrap().as_slice(), f.vecs[e].map(|x| x * k[1] + l[1]).as_slice());
            same_slice(c, "matrix", a.assemble_element_matrix(e).unwrap().as_slice(), f.mats[e].map(|x| x * k[2] + l[2]).as_slice());
        }
    }
    let (o, z) = (T::one(), T::zero());
    let id = |i: usize| i;
    let g = Fake { s, nodes: 3, conn, mats: f.mats.clone(), vecs: f.vecs.clone(), scal: f.scal.clone() };
    match which {
        0 => {
            let a = g.transform_element_scalar(|x| Ok(x * k + l));
            check(c, &a, &f, [k, o, o], [l, z, z], &id, 3);
        }
        1 => {
            let a = g.transform_element_vector(|mut x| {
                x.apply(|v| *v = *v * k + l);
                Ok(())
            });
            check(c, &a, &f, [o, k, o], [z, l, z], &id, 3);
        }
        2 => {
            let a = g.transform_element_matrix(|mut x| {
                x.apply(|v| *v = *v * k + l);
                Ok(())
            });
            check(c, &a, &f, [o, o, k], [z, z, l], &id, 3);
        }
        _ => {
            let a = g.map_element_nodes(8, |i| 7 - 2 * i);
            check(c, &a, &f, [o, o, o], [z, z, z], &|i| 7 - 2 * i, 8);
        }
    }
}
/// A basis function buffer holds the nodes, basis values and gradients of the element it was last filled for, in any order of elements and spaces.
fn basis_buffer<T: Real, C: Cx<T>>(c: &mut C) {
    let corners: Vec<Point2<T>> = [[0, 0], [4, 1], [5, 5], [1, 3], [9, 2]].iter().map(|p| Point2::new(c.int(p[0]), c.int(p[1]))).collect();
    let quads = Mesh::from_vertices_and_connectivity(corners.clone(), vec![Quad4d2Connectivity([0, 1, 2, 3]), Quad4d2Connectivity([1, 4, 2, 0])]);
    let tris = Mesh::from_vertices_and_connectivity(corners, vec![Tri3d2Connectivity([4, 2, 1]), Tri3d2Connectivity([3, 0, 2])]);
    let segs = Mesh::<T, U1, Segment2d1Connectivity>::from_vertices_and_connectivity(
        [2, 7, 3].iter().map(|x| Point1::new(c.int(*x))).collect(),
        vec![Segment2d1Connectivity([2, 0]), Segment2d1Connectivity([1, 2])],
    );
    let mut b = BasisFunctionBuffer::default();
    fn visit<T: Real, C: Cx<T>, S: FiniteElementSpace<T>>(c: &mut C, b: &mut BasisFunctionBuffer<T>, s: &S, e: usize, part: usize, xi: OPoint<T, S::ReferenceDim>)
    where
        DefaultAllocator: BiDimAllocator<T, S::GeometryDim, S::ReferenceDim>,
    {
        let (n, d) = (s.element_node_count(e), S::ReferenceDim::dim());
        let mut nodes = vec![0; n];
        s.populate_element_nodes(&mut nodes, e);
        let mut values = vec![T::zero(); n];
        s.populate_element_basis(e, &mut values, &xi);
        let mut grads = OMatrix::<T, S::ReferenceDim, Dyn>::zeros(n);
        s.populate_element_gradients(e, MatrixViewMut::from(&mut grads), &xi);
        b.resize(n, d);
        b.populate_element_nodes_from_space(e, s);
        if part != 1 {
            b.populate_element_basis_values_from_space(e, s, &xi);
            same_slice(c, "basis values", b.element_basis_values(), &values);
        }
        if part != 0 {
            b.populate_element_basis_gradients_from_space(e, s, &xi);
            same_slice(c, "basis gradients", b.element_gradients::<S::ReferenceDim>().clone_owned().as_slice(), grads.as_slice());
        }
        c.holds("nodes", b.element_nodes() == &nodes[..]);
        if part == 2 {
            {
                let (v, g) = b.element_values_gradients_mut::<S::ReferenceDim>();
                same_slice(c, "mutable basis values", v, &values);
                same_slice(c, "mutable basis gradients", g.clone_owned().as_slice(), grads.as_slice());
                v.iter_mut().for_each(|v| *v += T::one());
            }
            b.element_basis_values_mut()[n - 1] = T::zero();
            b.element_gradients_mut::<S::ReferenceDim>()[(d - 1, 0)] = T::zero();
            for i in 0..n {
                let want = if i == n - 1 { T::zero() } else { values[i] + T::one() };
                c.eq("changed basis value", b.element_basis_values()[i], want);
            }
            grads[(d - 1, 0)] = T::zero();
            same_slice(c, "changed basis gradients", b.element_gradients::<S::ReferenceDim>().clone_owned().as_slice(), grads.as_slice());
        }
    }
    for k in 0..3 {
        let e = c.choose(&format!("element {k}"), 2);
        let part = c.choose(&format!("part {k}"), 3);
        let xi = pt2(c, &format!("xi{k}"), 1.0);
        match c.choose(&format!("space {k}"), 3) {
            0 => visit(c, &mut b, &quads, e, part, xi),
            1 => visit(c, &mut b, &tris, e, part, xi),
            _ => visit(c, &mut b, &segs, e, part, Point1::new(xi.x)),
        }
    }
}
fn tables<T: Real, C: Cx<T>>(c: &mut C) {
    let sizes = [0, 1, 2, 1, 3];
    let rules: Vec<QuadraturePair<T, U2>> = (0..5)
        .map(|k| (vars(c, sizes[k], &format!("w{k}")), (0..sizes[k]).map(|i| pt2(c, &format!("x{k}{i}"), B)).collect()))
        .collect();
    let (table, data) = table_of(c, &rules);
    let map = [2, 0, 4, 1, c.choose("rule of element 4", 5), 3, 1];
    let parts = table.clone().into_parts();
    let compact = CompactQuadratureTable::from_quadrature_rules_and_map(parts.points, parts.weights, parts.data, map.to_vec());
    let one = P(c.var("one", -B, B), c.var("two", -B, B));
    let uni = UniformQuadratureTable::from_quadrature_and_uniform_data(rules[2].clone(), one.clone());
    let bare = UniformQuadratureTable::from_quadrature(rules[2].clone()).with_uniform_data(one.clone());
    let each = UniformQuadratureTable::from_points_weights_and_data(rules[2].1.clone(), rules[2].0.clone(), data[2].clone());
    fn check<T: Real, C: Cx<T>>(c: &mut C, t: &impl QuadratureTable<T, U2, Data = P<T>>, e: usize, r: &QuadraturePair<T, U2>, d: &[P<T>]) {
        let n = t.element_quadrature_size(e);
        c.holds("size", n == r.0.len());
        let (mut w, mut x, mut p) = (vec![T::one(); n], vec![Point2::origin(); n], vec![P::default(); n]);
        t.populate_element_quadrature_and_data(e, &mut x, &mut w, &mut p);
        let mut b = QuadratureBuffer::default();
        b.populate_element_quadrature_from_table(e, t);
        let mut b2 = QuadratureBuffer::<T, U2, P<T>>::default();
        b2.populate_element_weights_and_points_from_table(e, t);
        for i in 0..n {
            for (w, x) in [(w[i], x[i]), (b.weights()[i], b.points()[i]), (b2.weights()[i], b2.points()[i])] {
                c.eq("weight", w, r.0[i]);
                same(c, "point", &x.coords, &r.1[i].coords);
            }
            for p in [&p[i], &b.data()[i]] {
                c.eq("data", p.0, d[i].0);
                c.eq("data", p.1, d[i].1);
            }
        }
        {
            fn parts<'a, T: Real, Q: fenris::quadrature::Quadrature<T, U2, Data = P<T>>>(q: &'a Q) -> (&'a [T], &'a [Point2<T>], &'a [P<T>]) {
                (q.weights(), q.points(), q.data())
            }
            let q = parts(&b);
            c.holds("buffer as rule: sizes", q.0.len() == n && q.1.len() == n && q.2.len() == n);
            for i in 0..n {
                c.eq("buffer as rule: weight", q.0[i], r.0[i]);
                same(c, "buffer as rule: point", &q.1[i].coords, &r.1[i].coords);
                c.eq("buffer as rule: data", q.2[i].1, d[i].1);
            }
        }
        c.holds("buffer sizes", b.weights().len() == n && b.points().len() == n && b.data().len() == n);
        let mut k = 0;
        b.for_each_quadrature_point(|w, x, p| {
            c.eq("weight", *&w, r.0[k]);
            same(c, "point", &x.coords, &r.1[k].coords);
            c.eq("data", p.0, d[k].0);
            k += 1;
            Ok(())
        })
        .unwrap();
        c.holds("all points visited", k == n);
    }
    for e in 0..5 {
        check(c, &table, e, &rules[e], &data[e]);
    }
    for (e, r) in map.iter().enumerate() {
        check(c, &compact, e, &rules[*r], &data[*r]);
    }
    for e in [0, 7] {
        check(c, &uni, e, &rules[2], &[one.clone(), one.clone()]);
        check(c, &bare, e, &rules[2], &[one.clone(), one.clone()]);
        check(c, &each, e, &rules[2], &data[2]);
    }
}
/// Inconsistent tables are refused, consistent ones are not.
fn refused_tables<T: Real, C: Cx<T>>(c: &mut C) {
    let array = c.choose("array", 3);
    let (change, place) = (c.choose("change", 4), c.choose("place", 3));
    let base: &[[usize; 3]] = &[[2, 1, 0], [1, 1, 1], [3, 0, 2]];
    let mut sizes = [base[c.choose("sizes", 3)]; 3];
    match change {
        1 => sizes[array][place] += 1,
        2 if sizes[array][place] > 0 => sizes[array][place] -= 1,
        _ => {}
    }
    let fine = sizes[0] == sizes[1] && sizes[1] == sizes[2];
    // Change 3: one rule less
    let rules = |k: usize| if change == 3 && k == array { 2 } else { 3 };
    let x = pt2(c, "x", B);
    let w = c.var("w", -B, B);
    let d = P(c.var("a", -B, B), c.var("b", -B, B));
    let (mut ps, mut ws, mut ds) = (NestedVec::new(), NestedVec::new(), NestedVec::new());
    (0..rules(0)).for_each(|k| ps.push(&vec![x; sizes[0][k]]));
    (0..rules(1)).for_each(|k| ws.push(&vec![w; sizes[1][k]]));
    (0..rules(2)).for_each(|k| ds.push(&vec![d.clone(); sizes[2][k]]));
    let fine = fine && change != 3;
    let general = || GeneralQuadratureTable::from_points_weights_and_data(ps.clone(), ws.clone(), ds.clone());
    let compact = |map: Vec<usize>| CompactQuadratureTable::from_quadrature_rules_and_map(ps.clone(), ws.clone(), ds.clone(), map);
    c.holds("a table is refused if and only if it is inconsistent", panics(|| drop(general())) != fine);
    c.holds("the same with shared rules", panics(|| drop(compact(vec![1, 0, 2, 2]))) != fine);
    let v = |n: usize| (vec![x; sizes[0][n]], vec![w; sizes[1][n]], vec![d.clone(); sizes[2][n]]);
    let (a, b, e) = v(place);
    let same = a.len() == b.len() && b.len() == e.len();
    c.holds("the same with a single rule", panics(|| drop(UniformQuadratureTable::from_points_weights_and_data(a, b, e))) != same);
    if !fine {
        return;
    }
    let mut map = vec![1, 0, 2];
    map[place] = c.choose("rule", 5);
    let known = map[place] < 3;
    c.holds("unknown rules are refused", panics(|| drop(compact(map.clone()))) != known);
    let t = general();
    let n = c.choose("length", 4);
    fn refuses<T: Real>(t: &impl QuadratureTable<T, U2, Data = P<T>>, e: usize, n: usize) -> [bool; 3] {
        [
            panics(|| t.populate_element_data(e, &mut vec![P::default(); n])),
            panics(|| t.populate_element_quadrature(e, &mut vec![Point2::origin(); n], &mut vec![T::zero(); n])),
            panics(|| t.populate_element_quadrature_and_data(e, &mut vec![Point2::origin(); n], &mut vec![T::zero(); n], &mut vec![P::default(); n])),
        ]
    }
    for e in 0..3 {
        c.holds("arrays of another size are refused", refuses(&t, e, n) == [n != sizes[0][e]; 3]);
    }
    c.holds("unknown elements are refused", refuses(&t, 3, n) == [true; 3] && panics(|| drop(t.element_quadrature_size(3))));
    if known {
        let t = compact(map.clone());
        for e in 0..3 {
            c.holds("arrays of another size are refused, shared rules", refuses(&t, e, n) == [n != sizes[0][map[e]]; 3]);
        }
        c.holds("unknown elements are refused, shared rules", refuses(&t, 3, n) == [true; 3] && panics(|| drop(t.element_quadrature_size(3))));
    }
    let (a, b, e) = v(place);
    let t = UniformQuadratureTable::from_points_weights_and_data(a, b, e);
    c.holds("arrays of another size are refused, single rule", refuses(&t, 9, n) == [n != sizes[0][place]; 3]);
}
/// Tables without data.
fn plain_tables<T: Real, C: Cx<T>>(c: &mut C) {
    let rules: Vec<QuadraturePair<T, U2>> = (0..3)
        .map(|k| (vars(c, k, &format!("w{k}")), (0..k).map(|i| pt2(c, &format!("x{k}{i}"), B)).collect()))
        .collect();
    let (mut ps, mut ws) = (NestedVec::new(), NestedVec::new());
    for r in &rules {
        ps.push(&r.1);
        ws.push(&r.0);
    }
    let map = [1, 2, 0, 1];
    let general = GeneralQuadratureTable::from_points_and_weights(ps.clone(), ws.clone());
    let compact = CompactQuadratureTable::from_points_weights_and_map(ps, ws, map.to_vec());
    let uni = UniformQuadratureTable::from_points_and_weights(rules[2].1.clone(), rules[2].0.clone());
    fn check<T: Real, C: Cx<T>>(c: &mut C, t: &impl QuadratureTable<T, U2, Data = ()>, e: usize, r: &QuadraturePair<T, U2>) {
        let n = t.element_quadrature_size(e);
        c.holds("size", n == r.0.len());
        let (mut w, mut x) = (vec![T::one(); n], vec![Point2::origin(); n]);
        t.populate_element_quadrature(e, &mut x, &mut w);
        let (mut w2, mut x2, mut d) = (w.clone(), x.clone(), vec![(); n]);
        t.populate_element_quadrature_and_data(e, &mut x2, &mut w2, &mut d);
        t.populate_element_data(e, &mut d);
        for i in 0..n {
            for (w, x) in [(w[i], x[i]), (w2[i], x2[i])] {
                c.eq("weight", w, r.0[i]);
                same(c, "point", &x.coords, &r.1[i].coords);
            }
        }
    }
    for e in 0..3 {
        check(c, &general, e, &rules[e]);
    }
    for (e, r) in map.iter().enumerate() {
        check(c, &compact, e, &rules[*r]);
    }
    check(c, &uni, 5, &rules[2]);
}
fn buffers<T: Real, C: Cx<T>>(c: &mut C) {
    let (mesh, _) = mesh_and_rules(c);
    let u = DVector::from_vec(vars(c, 8, "u"));
    let mut buf = InterpolationBuffer::default();
    let order = if c.choose("order", 2) == 0 { [0, 1] } else { [1, 0] };
    for k in order {
        let (e, ids) = elem_of(&mesh, k);
        let mut b = buf.prepare_element_in_space(k, &mesh, &u, 2);
        for (i, up) in [BufferUpdate::Both, BufferUpdate::BasisValues, BufferUpdate::BasisGradients].into_iter().enumerate() {
            let xi = pt2(c, &format!("q{k}{i}"), 1.0);
            b.update_reference_point(&xi, up.clone());
            same(c, "mapped point", &b.map_reference_coords().coords, &e.map_reference_coords(&xi).coords);
            same_slice(c, "Jacobian", b.element_reference_jacobian().as_slice(), e.reference_jacobian(&xi).as_slice());
            let phi = basis_of(&e, &xi);
            let g = grads_of(&e, &xi);
            if up != BufferUpdate::BasisGradients {
                same_slice(c, "basis values", b.basis_values(), &phi);
                let v = b.interpolate::<U2>();
                for s in 0..2 {
                    let w = (0..3).fold(T::zero(), |t, n| t + phi[n] * u[2 * ids[n] + s]);
                    c.eq("interpolated value", v[s], w);
                }
            }
            if up != BufferUpdate::BasisValues {
                let m = b.interpolate_ref_gradient::<U2>();
                for s in 0..2 {
                    for d in 0..2 {
                        let w = (0..3).fold(T::zero(), |t, n| t + g[(d, n)] * u[2 * ids[n] + s]);
                        c.eq("interpolated gradient", m[(d, s)], w);
                    }
                }
            }
        }
    }
}

pub fn list() -> Vec<Harness> {
    let mut v = vec![];
    macro_rules! el {
        ($p:expr, $about:expr, $($f:ident $t:ident),*) => {$( h!(v, $p, stringify!($f), $t, $about, |c| $f(c)); )*};
    }
    el!("P13", "energy, vector and matrix on a distorted element, all nodal values, weights, parameters", elliptic_tri3 Quick, elliptic_tri6 Quick,
        elliptic_quad4 Quick, elliptic_tri3_scalar Quick, elliptic_tri3_wide Quick, elliptic_tet4_vector Quick, elliptic_quad9 Quick, elliptic_tet4 Quick, elliptic_tet10 Quick, elliptic_hex8 Quick, elliptic_tet20 Thorough,
        elliptic_hex20 Thorough, elliptic_hex27 Thorough);
    el!("P13", "stiffness of an arbitrary element", laplace_tri3 Quick, laplace_tet4 Quick);
    el!("P13", "degenerate elements", singular Quick);
    el!("P13", "element matrices in blocks of larger matrices", blocks Quick);
    el!("P13", "batched contractions", contractions Quick);
    el!("P13", "element assembler on a mesh", elliptic_assembler Quick);
    el!("P14", "mass matrix and source vector of an arbitrary element with an arbitrary rule", mass_tri3 Quick, mass_tri6 Quick, mass_quad4 Quick,
        mass_quad9 Quick, mass_tet4 Quick, mass_tet10 Quick, mass_hex8 Quick, mass_hex20 Thorough);
    el!("P14", "exact mass matrices of arbitrary simplices", mass_exact Quick);
    el!("P14", "mass and source assemblers on a mesh", mass_assembler Quick);
    el!("P17", "aggregation of assemblers", aggregate Quick);
    el!("P17", "transformed assemblers", transform Quick);
    el!("P17", "quadrature tables and buffers", tables Quick);
    el!("P17", "quadrature tables without data", plain_tables Quick);
    el!("P17", "inconsistent tables", refused_tables Quick);
    el!("P17", "interpolation buffer", buffers Quick);
    el!("P17", "basis function buffer", basis_buffer Quick);
    v
}
