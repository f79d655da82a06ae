//! P32: results do not depend on what the same thread or assembler computed before.
use super::local::{Cubic, Fake, Src, P};
use super::util::*;
use crate::h;
use fenris::assembly::global::*;
use fenris::assembly::local::*;
use fenris::connectivity::*;
use fenris::integrate::{ElementIntegralAssemblerBuilder, FnFunction};
use fenris::allocators::BiDimAllocator;
use fenris::mesh::Mesh;
use fenris::space::*;
use fenris_nested_vec::NestedVec;
use nalgebra_sparse::CsrMatrix;

const B: f64 = 4.0;

/// A space in which the q-th of the points 0, 1, 2 is in a given element.
struct Located<'a, S, P> {
    space: &'a S,
    found: Vec<(usize, P)>,
}
impl<'a, S: FiniteElementConnectivity, P> FiniteElementConnectivity for Located<'a, S, P> {
    fn num_elements(&self) -> usize {
        self.space.num_elements()
    }
    fn num_nodes(&self) -> usize {
        self.space.num_nodes()
    }
    fn element_node_count(&self, k: usize) -> usize {
        self.space.element_node_count(k)
    }
    fn populate_element_nodes(&self, nodes: &mut [usize], k: usize) {
        self.space.populate_element_nodes(nodes, k)
    }
}
impl<'a, T: Real, S: FiniteElementSpace<T>> FiniteElementSpace<T> for Located<'a, S, OPoint<T, S::ReferenceDim>>
where
    DefaultAllocator: BiDimAllocator<T, S::GeometryDim, S::ReferenceDim>,
{
    type GeometryDim = S::GeometryDim;
    type ReferenceDim = S::ReferenceDim;
    fn populate_element_basis(&self, k: usize, v: &mut [T], xi: &OPoint<T, S::ReferenceDim>) {
        self.space.populate_element_basis(k, v, xi)
    }
    fn populate_element_gradients(&self, k: usize, g: MatrixViewMut<T, S::ReferenceDim, Dyn>, xi: &OPoint<T, S::ReferenceDim>) {
        self.space.populate_element_gradients(k, g, xi)
    }
    fn element_reference_jacobian(&self, k: usize, xi: &OPoint<T, S::ReferenceDim>) -> OMatrix<T, S::GeometryDim, S::ReferenceDim> {
        self.space.element_reference_jacobian(k, xi)
    }
    fn map_element_reference_coords(&self, k: usize, xi: &OPoint<T, S::ReferenceDim>) -> OPoint<T, S::GeometryDim> {
        self.space.map_element_reference_coords(k, xi)
    }
    fn diameter(&self, k: usize) -> T {
        self.space.diameter(k)
    }
}
impl<'a, T: Real, S: FiniteElementSpace<T>> FindClosestElement<T> for Located<'a, S, OPoint<T, S::ReferenceDim>>
where
    DefaultAllocator: BiDimAllocator<T, S::GeometryDim, S::ReferenceDim>,
{
    fn find_closest_element_and_reference_coords(&self, p: &OPoint<T, S::GeometryDim>) -> Option<(usize, OPoint<T, S::ReferenceDim>)> {
        let q = (0..self.found.len()).find(|q| p[0] == T::from_usize(*q).unwrap())?;
        Some(self.found[q].clone())
    }
}

/// A mesh, values at its nodes, and rules with different numbers of points for its elements.
macro_rules! family {
    ($name:ident $d:ident $conn:ident $pt:ident) => {
        struct $name<T: Real> {
            mesh: Mesh<T, $d, $conn>,
            u: DVector<T>,
            table: GeneralQuadratureTable<T, $d, P<T>>,
            densities: GeneralQuadratureTable<T, $d, Density<T>>,
        }
        impl<T: Real> $name<T> {
            fn new<C: Cx<T>>(c: &mut C, name: &str, pts: &[[i64; 3]], conn: Vec<$conn>, sizes: &[usize]) -> Self {
                let v = pts.iter().map(|p| $pt::<T>::from(OVector::<T, $d>::from_fn(|i, _| c.int(p[i])))).collect();
                let u = DVector::from_iterator(2 * pts.len(), (0..2 * pts.len()).map(|i| c.var(&format!("{name}u{i}"), -B, B)));
                let (mut ps, mut ws, mut ds, mut rs) = (NestedVec::new(), NestedVec::new(), NestedVec::new(), NestedVec::new());
                for (k, n) in sizes.iter().enumerate() {
                    let p: Vec<$pt<T>> = (0..*n)
                        .map(|q| $pt::from(OVector::<T, $d>::from_fn(|i, _| c.int((2 * q + 3 * i + k) as i64 % 5 - 2) / c.int(9))))
                        .collect();
                    let w: Vec<T> = (0..*n).map(|q| c.var(&format!("{name}w{k}_{q}"), -2.0, 2.0)).collect();
                    let d: Vec<P<T>> = (0..*n).map(|q| P(c.var(&format!("{name}p{k}_{q}"), -B, B), c.var(&format!("{name}q{k}_{q}"), -B, B))).collect();
                    let r: Vec<T> = d.iter().map(|d| d.1).collect();
                    ps.push(&p);
                    ws.push(&w);
                    ds.push(&d);
                    rs.push(Density::from_inner_slice(&r));
                }
                let densities = GeneralQuadratureTable::from_points_weights_and_data(ps.clone(), ws.clone(), rs);
                let table = GeneralQuadratureTable::from_points_weights_and_data(ps, ws, ds);
                $name { mesh: Mesh::from_vertices_and_connectivity(v, conn), u, table, densities }
            }
            /// Changes values and vertices where they are, or makes a copy of everything elsewhere.
            fn change(&mut self, values: bool) {
                let (two, one) = (T::one() + T::one(), T::one());
                if values {
                    self.u.iter_mut().enumerate().for_each(|(i, x)| *x = *x * two + T::from_usize(i + 1).unwrap());
                } else {
                    self.mesh.vertices_mut().iter_mut().for_each(|x| x.coords.iter_mut().enumerate().for_each(|(i, x)| *x = *x * two + if i == 1 { one } else { -one }));
                }
            }
            fn copy(&self) -> Self {
                $name { mesh: self.mesh.clone(), u: self.u.clone(), table: self.table.clone(), densities: self.densities.clone() }
            }
            /// The values of one computation on one element; None where it fails.
            fn run(&self, k: usize, what: usize) -> Option<Vec<T>> {
                let elliptic = ElementEllipticAssemblerBuilder::new()
                    .with_finite_element_space(&self.mesh)
                    .with_operator(&Cubic)
                    .with_quadrature_table(&self.table)
                    .with_u(&self.u)
                    .build();
                match what {
                    0 => elliptic.assemble_element_scalar(k).ok().map(|x| vec![x]),
                    1 => elliptic.assemble_element_vector(k).ok().map(|x| x.as_slice().to_vec()),
                    2 => elliptic.assemble_element_matrix(k).ok().map(|x| x.as_slice().to_vec()),
                    3 => ElementMassAssembler::with_solution_dim(1 + k)
                        .with_space(&self.mesh)
                        .with_quadrature_table(&self.densities)
                        .assemble_element_matrix(k)
                        .ok()
                        .map(|x| x.as_slice().to_vec()),
                    4 => ElementSourceAssemblerBuilder::new()
                        .with_finite_element_space(&self.mesh)
                        .with_source(&Src)
                        .with_quadrature_table(&self.table)
                        .build::<T>()
                        .assemble_element_vector(k)
                        .ok()
                        .map(|x| x.as_slice().to_vec()),
                    5 => ElementIntegralAssemblerBuilder::new()
                        .with_space(&self.mesh)
                        .with_quadrature_table(&self.table)
                        .with_interpolation_weights(&self.u)
                        .with_integrand(FnFunction::new(|x: &$pt<T>, u: &OVector<T, U2>| Vector1::new(x[0] * u[0] + u[1] * u[1])))
                        .build_integrator()
                        .assemble_element_scalar(k)
                        .ok()
                        .map(|x| vec![x]),
                    7 | 8 => {
                        // three points: two in the element, with one in another element between them
                        let n = self.mesh.connectivity().len();
                        let xi = |q: usize| $pt::<T>::from(OVector::<T, $d>::from_fn(|i, _| T::from_f64(((q + i) % 3) as f64 / 8.0 - 0.25).unwrap()));
                        let found = vec![(k, xi(0)), ((k + 1) % n, xi(1)), (k, xi(2))];
                        let points: Vec<$pt<T>> = (0..3).map(|q| $pt::<T>::from(OVector::<T, $d>::from_element(T::from_usize(q).unwrap()))).collect();
                        let space = Located { space: &self.mesh, found };
                        let u = DVectorView::from(&self.u);
                        let mut out = None;
                        panics(|| {
                            out = Some(if what == 7 {
                                let mut r = vec![OVector::<T, U2>::zeros(); 3];
                                interpolate_at_points(&space, &points, u, &mut r);
                                r.iter().flat_map(|r| r.as_slice().to_vec()).collect::<Vec<T>>()
                            } else {
                                let mut r = vec![OMatrix::<T, $d, U2>::zeros(); 3];
                                interpolate_gradient_at_points(&space, &points, u, &mut r);
                                r.iter().flat_map(|r| r.as_slice().to_vec()).collect::<Vec<T>>()
                            })
                        });
                        out
                    }
                    _ => ElementIntegralAssemblerBuilder::new()
                        .with_space(&self.mesh)
                        .with_quadrature_table(&self.table)
                        .with_interpolation_weights(&self.u)
                        .with_integrand(FnFunction::new(|x: &$pt<T>, u: &OVector<T, U2>, g: &OMatrix<T, $d, U2>| Vector1::new(x[1] * u[0] + g[(0, 1)] * u[1])))
                        .build_volume_integrator()
                        .assemble_element_scalar(k)
                        .ok()
                        .map(|x| vec![x]),
                }
            }
        }
    };
}
family!(Tri3s U2 Tri3d2Connectivity Point2);
family!(Tri6s U2 Tri6d2Connectivity Point2);
family!(Quad4s U2 Quad4d2Connectivity Point2);
family!(Tet4s U3 Tet4Connectivity Point3);
family!(Hex8s U3 Hex8Connectivity Point3);

/// Number of elements of each family.
const SIZES: [usize; 5] = [3, 1, 2, 2, 1];

enum Family<T: Real> {
    A(Tri3s<T>),
    B(Tri6s<T>),
    C(Quad4s<T>),
    D(Tet4s<T>),
    E(Hex8s<T>),
}
impl<T: Real> Family<T> {
    fn new<C: Cx<T>>(c: &mut C, name: &str, which: usize) -> Self {
        match which {
            // the third triangle is degenerate
            0 => Family::A(Tri3s::new(
                c,
                name,
                &[[0, 0, 0], [5, 1, 0], [1, 4, 0], [6, 7, 0], [10, 2, 0]],
                vec![Tri3d2Connectivity([1, 2, 0]), Tri3d2Connectivity([3, 2, 1]), Tri3d2Connectivity([0, 1, 4])],
                &[2, 1, 2],
            )),
            1 => Family::B(Tri6s::new(
                c,
                name,
                &[[0, 0, 0], [4, 0, 0], [0, 6, 0], [2, 0, 0], [2, 3, 0], [0, 3, 0]],
                vec![Tri6d2Connectivity([0, 1, 2, 3, 4, 5])],
                &[3],
            )),
            2 => Family::C(Quad4s::new(
                c,
                name,
                &[[0, 0, 0], [4, 0, 0], [5, 6, 0], [-1, 3, 0], [8, 1, 0], [9, 9, 0]],
                vec![Quad4d2Connectivity([0, 1, 2, 3]), Quad4d2Connectivity([1, 4, 5, 2])],
                &[1, 4],
            )),
            3 => Family::D(Tet4s::new(
                c,
                name,
                &[[0, 0, 0], [4, 0, 1], [0, 5, 1], [1, 1, 6], [7, 7, 7]],
                vec![Tet4Connectivity([0, 1, 2, 3]), Tet4Connectivity([1, 4, 2, 3])],
                &[2, 0],
            )),
            _ => Family::E(Hex8s::new(
                c,
                name,
                &[[0, 0, 0], [4, 0, 0], [4, 3, 0], [0, 3, 0], [0, 0, 2], [4, 0, 2], [4, 3, 2], [0, 3, 2]],
                vec![Hex8Connectivity([0, 1, 2, 3, 4, 5, 6, 7])],
                &[1],
            )),
        }
    }
    fn change(&mut self, values: bool) {
        match self {
            Family::A(m) => m.change(values),
            Family::B(m) => m.change(values),
            Family::C(m) => m.change(values),
            Family::D(m) => m.change(values),
            Family::E(m) => m.change(values),
        }
    }
    fn copy(&self) -> Self {
        match self {
            Family::A(m) => Family::A(m.copy()),
            Family::B(m) => Family::B(m.copy()),
            Family::C(m) => Family::C(m.copy()),
            Family::D(m) => Family::D(m.copy()),
            Family::E(m) => Family::E(m.copy()),
        }
    }
    fn run(&self, k: usize, what: usize) -> Option<Vec<T>> {
        match self {
            Family::A(m) => m.run(k, what),
            Family::B(m) => m.run(k, what),
            Family::C(m) => m.run(k, what),
            Family::D(m) => m.run(k, what),
            Family::E(m) => m.run(k, what),
        }
    }
}
const KINDS: [&str; 9] = ["elliptic energy", "elliptic vector", "elliptic matrix", "mass matrix", "source vector", "integral", "volume integral", "interpolation", "interpolated gradient"];

/// A computation on one element gives the same values before and after any other computation on the same thread.
fn local<T: Real, C: Cx<T>>(c: &mut C, what: usize, between: usize) {
    let elements: Vec<(usize, usize)> = (0..5).flat_map(|m| (0..SIZES[m]).map(move |k| (m, k))).collect();
    let (m, k) = elements[c.choose("element", elements.len())];
    let x = Family::new(c, "a", m);
    let first = x.run(k, what);
    for i in 0..between {
        let (m2, k2) = elements[c.choose(&format!("other element {i}"), elements.len())];
        let other = c.choose(&format!("other computation {i}"), KINDS.len());
        Family::new(c, ["b", "c"][i], m2).run(k2, other);
    }
    let second = x.run(k, what);
    match (first, second) {
        (Some(a), Some(b)) => same_slice(c, KINDS[what], &a, &b),
        (a, b) => c.holds("fails both times or not at all", a.is_none() == b.is_none()),
    }
}

/// After the values or vertices are changed where they are, a computation gives what it gives for a copy of everything.
fn in_place<T: Real, C: Cx<T>>(c: &mut C) {
    let elements: Vec<(usize, usize)> = (0..5).flat_map(|m| (0..SIZES[m]).map(move |k| (m, k))).collect();
    let (m, k) = elements[c.choose("element", elements.len())];
    let (first, what) = (c.choose("first computation", KINDS.len()), c.choose("computation", KINDS.len()));
    let values = c.choose("changed", 2) == 0;
    let mut x = Family::new(c, "a", m);
    x.run(k, first);
    x.change(values);
    let got = x.run(k, what);
    let copy = x.copy();
    Family::new(c, "b", (m + 1) % 5).run(0, what);
    match (got, copy.run(k, what)) {
        (Some(a), Some(b)) => same_slice(c, KINDS[what], &a, &b),
        (a, b) => c.holds("fails both times or not at all", a.is_none() == b.is_none()),
    }
}

/// One global assembler for several problems of different sizes gives what fresh ones give.
fn global<T: Real, C: Cx<T>>(c: &mut C) {
    let conns: [(usize, usize, Vec<Vec<usize>>); 6] = [
        (1, 4, vec![vec![0, 2], vec![3, 1, 0]]),
        (2, 3, vec![vec![2, 0], vec![1]]),
        (3, 2, vec![vec![1, 0]]),
        (1, 6, vec![vec![5, 3, 1, 0], vec![], vec![4, 2]]),
        (2, 5, vec![]),
        (2, 2, vec![vec![0], vec![1, 0], vec![1]]),
    ];
    let (csr, vec, par, vpar) = (CsrAssembler::default(), VectorAssembler::default(), CsrParAssembler::default(), VectorParAssembler::default());
    for step in 0..3 {
        let (s, n, conn) = conns[c.choose(&format!("problem {step}"), conns.len())].clone();
        let f = Fake::new(c, &format!("f{step}"), s, n, conn);
        let colors = color_nodes(&f);
        let want = CsrAssembler::default().assemble(&f).unwrap();
        let wv = VectorAssembler::default().assemble_vector(&f).unwrap();
        for got in [csr.assemble(&f).unwrap(), CsrMatrix::try_from_pattern_and_values(par.assemble_pattern(&f), vec![T::zero(); want.nnz()]).unwrap()] {
            c.holds("pattern", got.pattern() == want.pattern());
        }
        let got = csr.assemble(&f).unwrap();
        same_slice(c, "matrix", got.values(), want.values());
        let mut got = CsrMatrix::try_from_pattern_and_values(want.pattern().clone(), vec![T::zero(); want.nnz()]).unwrap();
        par.assemble_into_csr(&mut got, &colors, &f).unwrap();
        same_slice(c, "matrix in parallel", got.values(), want.values());
        same_slice(c, "vector", vec.assemble_vector(&f).unwrap().as_slice(), wv.as_slice());
        let mut got = DVector::zeros(s * n);
        vpar.assemble_vector_into(&mut got, &colors, &f).unwrap();
        same_slice(c, "vector in parallel", got.as_slice(), wv.as_slice());
    }
}

pub fn list() -> Vec<Harness> {
    let mut v = vec![];
    macro_rules! kind {
        ($($name:literal $name2:literal $k:literal;)*) => {$(
            h!(v, "P32", $name, Quick, "a computation on each of 9 elements of 5 kinds, before and after another computation on each of them", |c| local(c, $k, 1));
            h!(v, "P32", $name2, Thorough, "a computation on each of 9 elements of 5 kinds, before and after two other computations", |c| local(c, $k, 2));
        )*};
    }
    kind! {
        "elliptic_energy" "elliptic_energy_2" 0;
        "elliptic_vector" "elliptic_vector_2" 1;
        "elliptic_matrix" "elliptic_matrix_2" 2;
        "mass" "mass_2" 3;
        "source" "source_2" 4;
        "integral" "integral_2" 5;
        "volume_integral" "volume_integral_2" 6;
        "interpolation" "interpolation_2" 7;
        "gradient" "gradient_2" 8;
    }
    h!(v, "P32", "in_place", Quick, "a computation on each of 9 elements after another one, values or vertices changed in place between them", |c| in_place(c));
    h!(v, "P32", "global", Quick, "global assemblers used for three problems of different sizes", |c| global(c));
    v
}
