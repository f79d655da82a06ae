//! P07, P08, P09: reference elements, their basis functions and their geometry maps.
use crate::h;
use crate::h::util::*;
use fenris::allocators::{BiDimAllocator, DimAllocator};
use fenris::connectivity::*;
use fenris::element::*;
use fenris_geometry::*;

const B: f64 = 16.0;

/// Exponents of all monomials with total degree <= k (`tensor`: with every exponent <= k).
fn monomials(d: usize, k: usize, tensor: bool) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..d {
        let mut next = vec![];
        for m in out {
            for e in 0..=k {
                let mut m: Vec<usize> = m.clone();
                m.push(e);
                next.push(m);
            }
        }
        out = next;
    }
    out.retain(|m| tensor || m.iter().sum::<usize>() <= k);
    out
}

fn mono<T: Real, D: DimName>(m: &[usize], x: &OPoint<T, D>) -> T
where
    DefaultAllocator: nalgebra::allocator::Allocator<T, D>,
{
    let mut r = T::one();
    for (i, e) in m.iter().enumerate() {
        for _ in 0..*e {
            r = r * x[i];
        }
    }
    r
}

fn basis_of<T: Real, E: ReferenceFiniteElement<T>>(e: &E, xi: &OPoint<T, E::ReferenceDim>) -> Vec<T>
where
    DefaultAllocator: DimAllocator<T, E::ReferenceDim>,
{
    let mut v = vec![T::zero(); e.num_nodes()];
    e.populate_basis(&mut v, xi);
    v
}
fn grads_of<T: Real, E: ReferenceFiniteElement<T>>(
    e: &E,
    xi: &OPoint<T, E::ReferenceDim>,
) -> OMatrix<T, E::ReferenceDim, Dyn>
where
    DefaultAllocator: DimAllocator<T, E::ReferenceDim>,
{
    let mut g = OMatrix::<T, E::ReferenceDim, Dyn>::zeros(e.num_nodes());
    e.populate_basis_gradients(MatrixViewMut::from(&mut g), xi);
    g
}

/// Facets of the reference domain as affine functions that vanish on them.
fn facets<T: Real, D: DimName>(x: &OPoint<T, D>, simplex: bool) -> Vec<T>
where
    DefaultAllocator: nalgebra::allocator::Allocator<T, D>,
{
    let d = D::dim();
    let mut f = vec![];
    for i in 0..d {
        f.push(x[i] + T::one());
        if !simplex {
            f.push(T::one() - x[i]);
        }
    }
    if simplex {
        // sum x_i <= 2 - d
        let mut s = T::from_i64(2 - d as i64).unwrap();
        for i in 0..d {
            s -= x[i];
        }
        f.push(s);
    }
    f
}

/// `e` has arbitrary physical vertices, `nodes` are the published reference nodes.
fn basis<T: Real, C: Cx<T>, E: ReferenceFiniteElement<T>>(
    c: &mut C,
    e: &E,
    nodes: &[OPoint<T, E::ReferenceDim>],
    degree: usize,
    tensor: bool,
    simplex: bool,
) where
    DefaultAllocator: DimAllocator<T, E::ReferenceDim>,
{
    c.holds("number of nodes", e.num_nodes() == nodes.len());
    for (i, n) in nodes.iter().enumerate() {
        for (j, v) in basis_of(e, n).into_iter().enumerate() {
            c.eq("basis function is 1 at its node and 0 at the others", v, c.int((i == j) as i64));
        }
    }
    let xi = ptn::<T, E::ReferenceDim, C>(c, "xi", 4.0);
    let phi = basis_of(e, &xi);
    let mut s = T::zero();
    for v in &phi {
        s += *v;
    }
    c.eq("basis functions sum to one", s, T::one());
    for m in monomials(E::ReferenceDim::dim(), degree, tensor) {
        let mut s = T::zero();
        for (v, n) in phi.iter().zip(nodes) {
            s += *v * mono(&m, n);
        }
        c.eq(&format!("monomial {m:?} is reproduced"), s, mono(&m, &xi));
    }
    // conformity: on a facet, the functions of the nodes off that facet vanish
    let nf = facets(&xi, simplex).len();
    for k in 0..nf {
        // a point on facet k (parametrised by the free coordinates of xi)
        let mut y = xi.clone();
        if simplex && k == nf - 1 {
            let d = E::ReferenceDim::dim();
            let f = facets(&xi, simplex)[k];
            y[d - 1] += f;
        } else if simplex {
            y[k] = -T::one();
        } else {
            y[k / 2] = if k % 2 == 0 { -T::one() } else { T::one() };
        }
        let phi = basis_of(e, &y);
        for (v, n) in phi.into_iter().zip(nodes) {
            if facets(n, simplex)[k] > c.lit(1e-6) {
                c.eq("function of a node off a facet vanishes on the facet", v, T::zero());
            }
        }
    }
}

fn gradients<T: Real, C: Cx<T>, E: FiniteElement<T>>(c: &mut C, e: &E)
where
    DefaultAllocator: BiDimAllocator<T, E::GeometryDim, E::ReferenceDim>,
{
    let xi = ptn::<T, E::ReferenceDim, C>(c, "xi", 4.0);
    let d = E::ReferenceDim::dim();
    let x: Vec<T> = xi.iter().cloned().collect();
    let point = |x: &[T]| OPoint::<T, E::ReferenceDim>::from(OVector::<T, E::ReferenceDim>::from_row_slice(x));
    let jac = c.jacobian(&x, &|x| basis_of(e, &point(x)));
    let g = grads_of(e, &xi);
    for j in 0..e.num_nodes() {
        for i in 0..d {
            c.eq_diff("gradient is the derivative of the basis function", g[(i, j)], jac[j][i]);
        }
    }
    let jac = c.jacobian(&x, &|x| e.map_reference_coords(&point(x)).coords.iter().cloned().collect());
    let j = e.reference_jacobian(&xi);
    for a in 0..E::GeometryDim::dim() {
        for b in 0..d {
            c.eq_diff("reference Jacobian is the derivative of the map", j[(a, b)], jac[a][b]);
        }
    }
}

/// A point of the reference domain.
fn in_ref<T: Real, C: Cx<T>, D: DimName>(c: &mut C, n: &str, simplex: bool) -> OPoint<T, D>
where
    DefaultAllocator: nalgebra::allocator::Allocator<T, D>,
{
    let xi = ptn::<T, D, C>(c, n, 1.0);
    if simplex {
        let f = *facets(&xi, true).last().unwrap();
        c.assume_le(T::zero(), f);
    }
    xi
}

/// Straight-sided elements: all nodes sit at the image of their reference node, the map agrees with
/// the isoparametric one.
fn map_nodes<T: Real, C: Cx<T>, E: FiniteElement<T>>(
    c: &mut C,
    e: &E,
    nodes: &[OPoint<T, E::ReferenceDim>],
    verts: &[OPoint<T, E::GeometryDim>],
) where
    DefaultAllocator: BiDimAllocator<T, E::GeometryDim, E::ReferenceDim>,
{
    c.holds("one vertex per node", verts.len() == nodes.len() && e.num_nodes() == nodes.len());
    for (n, v) in nodes.iter().zip(verts) {
        same(c, "reference node is mapped to its vertex", &e.map_reference_coords(n).coords, &v.coords);
    }
    let xi = ptn::<T, E::ReferenceDim, C>(c, "xi", 4.0);
    let phi = basis_of(e, &xi);
    let mut s = OVector::<T, E::GeometryDim>::zeros();
    for (p, v) in phi.iter().zip(verts) {
        s += &v.coords * *p;
    }
    same(c, "map interpolates the vertices with the basis", &e.map_reference_coords(&xi).coords, &s);
}

fn diameter<T: Real, C: Cx<T>, E: FiniteElement<T>>(c: &mut C, e: &E, verts: &[OPoint<T, E::GeometryDim>])
where
    DefaultAllocator: BiDimAllocator<T, E::GeometryDim, E::ReferenceDim>,
{
    let d = e.diameter();
    let mut best = T::zero();
    for (i, a) in verts.iter().enumerate() {
        for b in &verts[..i] {
            let l = (a - b).norm();
            c.le("no two vertices are further apart than the diameter", l, d);
            best = best.max(l);
        }
    }
    c.eq("diameter is attained", d, best);
}

fn verts_of<T: Real, C: Cx<T>, D: DimName, const N: usize>(c: &mut C, names: &str) -> [OPoint<T, D>; N]
where
    DefaultAllocator: nalgebra::allocator::Allocator<T, D>,
{
    let mut i = 0;
    [(); N].map(|_| {
        i += 1;
        ptn::<T, D, C>(c, &format!("{names}{}", i - 1), B)
    })
}

macro_rules! low {
    ($name:ident, $e:ident, $d:ty, $n:expr) => {
        fn $name<T: Real, C: Cx<T>>(c: &mut C) -> $e<T> {
            $e::from_vertices(verts_of::<T, C, $d, $n>(c, "v"))
        }
    };
}
low!(mk_seg1, Segment2d1Element, U1, 2);
low!(mk_seg2, Segment2d2Element, U2, 2);
low!(mk_tri3, Tri3d2Element, U2, 3);
low!(mk_tri6, Tri6d2Element, U2, 6);
low!(mk_tri3d3, Tri3d3Element, U3, 3);
low!(mk_quad4, Quad4d2Element, U2, 4);
low!(mk_quad9, Quad9d2Element, U2, 9);
low!(mk_tet4, Tet4Element, U3, 4);
low!(mk_tet10, Tet10Element, U3, 10);
low!(mk_tet20, Tet20Element, U3, 20);
low!(mk_hex8, Hex8Element, U3, 8);
low!(mk_hex20, Hex20Element, U3, 20);
low!(mk_hex27, Hex27Element, U3, 27);

fn seg_nodes<T: Real>() -> Vec<Point1<T>> {
    vec![Point1::new(-T::one()), Point1::new(T::one())]
}
fn tri_nodes<T: Real>() -> Vec<Point2<T>> {
    Tri3d2Element::<T>::reference().vertices().to_vec()
}
/// The documented reference positions, written down independently of the code.
fn documented<T: Real, C: Cx<T>, D: DimName>(c: &mut C, got: &[OPoint<T, D>], want3: &[[i64; 3]], den: i64)
where
    DefaultAllocator: nalgebra::allocator::Allocator<T, D>,
{
    c.holds("number of reference nodes", got.len() == want3.len());
    for (g, w) in got.iter().zip(want3) {
        for i in 0..D::dim() {
            c.eq("documented reference node", g[i], c.frac(w[i], den));
        }
    }
}

const HEX: [[i64; 3]; 8] =
    [[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1], [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]];
const QUAD: [[i64; 3]; 4] = [[-1, -1, 0], [1, -1, 0], [1, 1, 0], [-1, 1, 0]];
const TET: [[i64; 3]; 4] = [[-1, -1, -1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]];

fn refs<T: Real, C: Cx<T>>(c: &mut C) {
    documented(c, Tri3d2Element::<T>::reference().vertices(), &[[-1, -1, 0], [1, -1, 0], [-1, 1, 0]], 1);
    documented(c, Tri6d2Element::<T>::reference().vertices(), &[
        [-1, -1, 0], [1, -1, 0], [-1, 1, 0], [0, -1, 0], [0, 0, 0], [-1, 0, 0],
    ], 1);
    documented(c, Quad4d2Element::<T>::reference().vertices(), &QUAD, 1);
    let mut q = QUAD.to_vec();
    q.extend([[0, -1, 0], [1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, 0, 0]]);
    documented(c, Quad9d2Element::<T>::reference().vertices(), &q, 1);
    documented(c, Tet4Element::<T>::reference().vertices(), &TET, 1);
    documented(c, Hex8Element::<T>::reference().vertices(), &HEX, 1);
    let h20 = Hex20Element::<T>::reference();
    let h27 = Hex27Element::<T>::reference();
    documented(c, &h20.vertices()[..8], &HEX, 1);
    documented(c, &h27.vertices()[..8], &HEX, 1);
    for i in 8..20 {
        same(c, "hex20 and hex27 share their edge nodes", &h20.vertices()[i].coords, &h27.vertices()[i].coords);
    }
    let t10 = Tet10Element::<T>::reference();
    let t20 = Tet20Element::<T>::reference();
    documented(c, &t10.vertices()[..4], &TET, 1);
    documented(c, &t20.vertices()[..4], &TET, 1);
}

/// A concrete, well-shaped tetrahedron / triangle out of a small list.
fn some_tri<T: Real, C: Cx<T>>(c: &mut C) -> [[i64; 2]; 3] {
    let shapes = [
        [[0, 0], [4, 0], [0, 4]],
        [[0, 0], [-3, 2], [5, 1]],
        [[1, 1], [1, 5], [-2, -3]],
        [[0, 0], [8, 1], [4, 1]],
        [[0, 0], [2, 2], [4, 4]],
        [[0, 0], [2, 0], [2, 0]],
    ];
    shapes[c.choose("shape", shapes.len())]
}

/// q is the point of the convex hull of `verts` closest to p.
fn optimal<T: Real, C: Cx<T>, D: DimName>(c: &mut C, q: &OPoint<T, D>, p: &OPoint<T, D>, verts: &[OPoint<T, D>])
where
    DefaultAllocator: nalgebra::allocator::Allocator<T, D>,
{
    for v in verts {
        c.le_tol("closest point: no vertex direction gets nearer", T::zero(), (q - p).dot(&(v - q)), 1e-9);
    }
}

fn closest_result<T: Real, C: Cx<T>, E: ClosestPointInElement<T>>(
    c: &mut C,
    e: &E,
    p: &OPoint<T, E::GeometryDim>,
    verts: &[OPoint<T, E::GeometryDim>],
) where
    DefaultAllocator: BiDimAllocator<T, E::GeometryDim, E::ReferenceDim>,
{
    let r = e.closest_point(p);
    let xi = r.point().clone();
    for f in facets(&xi, true) {
        c.le_tol("closest point lies in the reference domain", T::zero(), f, 1e-12);
    }
    let q = e.map_reference_coords(&xi);
    optimal(c, &q, p, verts);
    if E::ReferenceDim::dim() == E::GeometryDim::dim() {
        if let ClosestPoint::InElement(_) = r {
            for i in 0..E::GeometryDim::dim() {
                c.eq_tol("a point reported inside is its own closest point", q[i], p[i], 1e-9);
            }
        } else {
            // strictly interior points must be recognised
            let f = facets(&xi, true);
            let mut m = f[0];
            for v in f {
                m = m.min(v);
            }
            c.le_tol("a point reported outside has its closest point on the boundary", m, T::zero(), 1e-9);
        }
    }
}

fn closest_tri2<T: Real, C: Cx<T>>(c: &mut C) {
    let s = some_tri(c);
    let v = s.map(|[x, y]| Point2::new(c.int(x), c.int(y)));
    let p = pt2(c, "p", B);
    closest_result(c, &Tri3d2Element::from_vertices(v), &p, &v);
}
fn closest_tri3<T: Real, C: Cx<T>>(c: &mut C) {
    let s = some_tri(c);
    let v = s.map(|[x, y]| Point3::new(c.int(x), c.int(y), c.int(2 * x - y)));
    let p = pt3(c, "p", B);
    closest_result(c, &Tri3d3Element::from_vertices(v), &p, &v);
}
fn closest_tet<T: Real, C: Cx<T>>(c: &mut C, shape: usize, lines: bool) {
    let shapes: [[[i64; 3]; 4]; 3] = [
        [[0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 4]],
        [[0, 0, 0], [4, 1, 0], [1, 4, -1], [2, 1, 3]],
        [[0, 0, 0], [4, 0, 0], [0, 4, 0], [1, 1, 0]],
    ];
    let s = shapes[shape];
    let v = s.map(|[x, y, z]| Point3::new(c.int(x), c.int(y), c.int(z)));
    // the query ranges over planes through and beside the element
    let planes = [([1, 1, 1], [1, -1, 0], [0, 1, -1]), ([0, 0, 0], [1, 0, 1], [0, 1, 0]), ([0, 0, 5], [1, 0, 0], [0, 1, 0]), ([1, 0, -1], [1, 0, 0], [0, 1, 1])];
    let (o, a, b) = planes[c.choose("plane", if lines { 3 } else { planes.len() })];
    let v3 = |w: [i64; 3], c: &C| Vector3::new(c.int(w[0]), c.int(w[1]), c.int(w[2]));
    let p = Point3::from(v3(o, c)) + v3(a, c) * c.var("s", -8.0, 8.0) + v3(b, c) * (if lines { {
        let k = c.choose("line", 4) as i64;
        c.int(2 * k - 3)
    } } else { c.var("t", -8.0, 8.0) });
    closest_result(c, &Tet4Element::from_vertices(v), &p, &v);
}

fn bounds_el<T: Real, C: Cx<T>, E: BoundsForElement<T>>(c: &mut C, e: &E, verts: &[OPoint<T, E::GeometryDim>])
where
    DefaultAllocator: BiDimAllocator<T, E::GeometryDim, E::ReferenceDim>,
{
    let b = e.element_bounds();
    for i in 0..E::GeometryDim::dim() {
        let (mut lo, mut hi) = (verts[0][i], verts[0][i]);
        for v in verts {
            lo = lo.min(v[i]);
            hi = hi.max(v[i]);
        }
        c.eq("lower bound", b.min()[i], lo);
        c.eq("upper bound", b.max()[i], hi);
    }
}

fn inverse<T: Real, C: Cx<T>, E: FiniteElement<T, ReferenceDim = <E as FiniteElement<T>>::GeometryDim>>(
    c: &mut C,
    e: &E,
) where
    DefaultAllocator: BiDimAllocator<T, E::GeometryDim, E::ReferenceDim>,
{
    let xi = ptn::<T, E::GeometryDim, C>(c, "xi", 1.5);
    // not within the stopping tolerance of the initial guess
    let x = e.map_reference_coords(&xi);
    c.assume_lt(c.frac(1, 16), (&x - e.map_reference_coords(&OPoint::origin())).norm_squared());
    match map_physical_coordinates(e, &x) {
        Ok(y) => {
            for i in 0..E::GeometryDim::dim() {
                c.eq_tol("the inverse map returns the reference point", y[i], xi[i], 1e-7);
            }
        }
        Err(_) => c.holds("inverse map converges on an affine element", false),
    }
}

fn project<T: Real, C: Cx<T>, E: FiniteElement<T>>(c: &mut C, e: &E)
where
    DefaultAllocator: BiDimAllocator<T, E::GeometryDim, E::ReferenceDim>,
{
    let x = ptn::<T, E::GeometryDim, C>(c, "x", B);
    match project_physical_coordinates(e, &x) {
        Ok(xi) => {
            let r = &e.map_reference_coords(&xi).coords - &x.coords;
            let j = e.reference_jacobian(&xi);
            for k in 0..E::ReferenceDim::dim() {
                c.eq_tol("projection residual is orthogonal to the tangents", j.column(k).dot(&r), T::zero(), 1e-6);
            }
        }
        Err(_) => c.holds("projection converges on an affine element", false),
    }
}

fn normals<T: Real, C: Cx<T>>(c: &mut C) {
    if c.choose("kind", 2) == 0 {
        let e = mk_seg2(c);
        let xi = ptn::<T, U1, C>(c, "xi", 1.0);
        let [a, b] = *e.vertices();
        c.assume_lt(T::zero(), (b - a).norm_squared());
        let n = e.normal(&xi);
        c.eq("unit normal", n.norm_squared(), T::one());
        c.eq("normal is orthogonal to the segment", n.dot(&(b - a)), T::zero());
        c.lt("normal points to the right of the direction of travel", (b - a).perp(&n), T::zero());
    } else {
        let e = mk_tri3d3(c);
        let xi = ptn::<T, U2, C>(c, "xi", 1.0);
        let [p, q, r] = *e.vertices();
        let cr = (q - p).cross(&(r - p));
        c.assume_lt(T::zero(), cr.norm_squared());
        let n = e.normal(&xi);
        c.eq("unit normal", n.norm_squared(), T::one());
        c.eq("normal is orthogonal to the first edge", n.dot(&(q - p)), T::zero());
        c.eq("normal is orthogonal to the second edge", n.dot(&(r - p)), T::zero());
        c.lt("normal follows the right-hand rule", T::zero(), n.dot(&cr));
    }
}

/// `ElementConnectivity::element` picks the addressed vertices in order.
fn lookup<T: Real, C: Cx<T>>(c: &mut C) {
    let n = 30;
    let v2: Vec<Point2<T>> = (0..n).map(|i| pt2(c, &format!("a{i}"), B)).collect();
    let v3: Vec<Point3<T>> = (0..n).map(|i| pt3(c, &format!("b{i}"), B)).collect();
    let v1: Vec<Point1<T>> = (0..n).map(|i| Point1::new(v2[i].x)).collect();
    let idx = |k: usize| (k * 7 + 3) % n;
    macro_rules! chk {
        ($conn:ident, $n:expr, $v:expr) => {{
            let mut a = [0usize; $n];
            for k in 0..$n {
                a[k] = idx(k);
            }
            let conn = $conn(a);
            let e: <$conn as ElementConnectivity<T>>::Element = conn.element(&$v).unwrap();
            c.holds("element takes one vertex per index", e.vertices().len() == $n);
            for (k, w) in e.vertices().iter().enumerate() {
                same(c, "element takes the addressed vertex", &w.coords, &$v[idx(k)].coords);
            }
            // indices which are not there
            for k in 0..$n {
                for off in [n, n + 9] {
                    let mut b = a;
                    b[k] = off;
                    c.holds("no element without its vertices", ElementConnectivity::<T>::element(&$conn(b), &$v).is_none());
                }
            }
            // the geometry map uses the corner vertices
            c.holds("connectivity lists its indices in order", conn.vertex_indices() == &a[..]);
            let u = DVector::from_fn(2 * n, |i, _| if i % 2 == 0 { v2[i / 2].x } else { v2[i / 2].y });
            let mut loc = OMatrix::<T, U2, Dyn>::zeros($n);
            <$conn as ElementConnectivity<T>>::populate_element_variables(&conn, MatrixViewMut::<T, U2, Dyn>::from(&mut loc), &u);
            for k in 0..$n {
                c.eq("gathered local variable", loc[(0, k)], v2[idx(k)].x);
                c.eq("gathered local variable", loc[(1, k)], v2[idx(k)].y);
            }
        }};
    }
    chk!(Segment2d1Connectivity, 2, v1);
    chk!(Segment2d2Connectivity, 2, v2);
    chk!(Tri3d2Connectivity, 3, v2);
    chk!(Tri6d2Connectivity, 6, v2);
    chk!(Quad4d2Connectivity, 4, v2);
    chk!(Quad9d2Connectivity, 9, v2);
    chk!(Tri3d3Connectivity, 3, v3);
    chk!(Tet4Connectivity, 4, v3);
    chk!(Tet10Connectivity, 10, v3);
    chk!(Tet20Connectivity, 20, v3);
    chk!(Hex8Connectivity, 8, v3);
    chk!(Hex20Connectivity, 20, v3);
    chk!(Hex27Connectivity, 27, v3);
}

/// Conversions between elements and geometric shapes keep the vertices in order.
fn shapes<T: Real, C: Cx<T>>(c: &mut C) {
    let v2: [Point2<T>; 4] = verts_of::<T, C, U2, 4>(c, "a");
    let v3: [Point3<T>; 3] = verts_of::<T, C, U3, 3>(c, "b");
    fn chk<T: Real, D: DimName, C: Cx<T>>(c: &mut C, got: &[OPoint<T, D>], want: &[OPoint<T, D>])
    where
        DefaultAllocator: nalgebra::allocator::Allocator<T, D>,
    {
        c.holds("number of vertices", got.len() == want.len());
        for (g, w) in got.iter().zip(want) {
            same(c, "vertex", &g.coords, &w.coords);
        }
    }
    let tri = [v2[0], v2[1], v2[2]];
    chk(c, Tri3d2Element::from(Triangle(tri)).vertices(), &tri);
    chk(c, Quad4d2Element::from(Quad2d(v2)).vertices(), &v2);
    chk(c, &Triangle::from(&Tri3d3Element::from_vertices(v3)).0, &v3);
    chk(c, Tri3d3Element::from(Triangle(v3)).vertices(), &v3);
    let s = LineSegment2d::from_end_points(v2[0], v2[1]);
    chk(c, Segment2d2Element::from(&s).vertices(), &v2[..2]);
    let e = Segment2d2Element::from(s);
    chk(c, e.vertices(), &v2[..2]);
    let s = e.to_line_segment();
    chk(c, &[*s.start(), *s.end()], &v2[..2]);
    let i = Segment2d1Element::from_interval([v2[0].x, v2[1].y]);
    chk(c, i.vertices(), &[Point1::new(v2[0].x), Point1::new(v2[1].y)]);
    let mid = |i: usize, j: usize| Point2::from((v2[i].coords + v2[j].coords) * T::from_f64(0.5).unwrap());
    chk(c, Tri6d2Element::from(Tri3d2Element::from_vertices(tri)).vertices(), &[v2[0], v2[1], v2[2], mid(0, 1), mid(1, 2), mid(2, 0)]);
    let q9 = Quad9d2Element::from(Quad4d2Element::from_vertices(v2));
    let w = [v2[0], v2[1], v2[2], v2[3], mid(0, 1), mid(1, 2), mid(2, 3), mid(3, 0)];
    chk(c, &q9.vertices()[..8], &w);
    // higher-order tetrahedra: interpolating the nodes reproduces the linear map
    let t: [Point3<T>; 4] = verts_of::<T, C, U3, 4>(c, "t");
    let t4 = Tet4Element::from_vertices(t);
    let x = Point3::from(vec3(c, "x", 1.0));
    let y = t4.map_reference_coords(&x);
    let e = Tet10Element::from(&t4);
    let b = e.evaluate_basis(&x);
    let z = e.vertices().iter().zip(b.iter()).fold(Vector3::zeros(), |s, (v, b)| s + v.coords * *b);
    same(c, "map of the quadratic tetrahedron", &z, &y.coords);
    let e = Tet20Element::from(&t4);
    let b = e.evaluate_basis(&x);
    let z = e.vertices().iter().zip(b.iter()).fold(Vector3::zeros(), |s, (v, b)| s + v.coords * *b);
    same(c, "map of the cubic tetrahedron", &z, &y.coords);
}
/// Quadrilateral elements as convex polygons: exactly the convex ones, vertices in order.
fn convex<T: Real, C: Cx<T>>(c: &mut C) {
    let v: [Point2<T>; 4] = verts_of::<T, C, U2, 4>(c, "a");
    let or = |i: usize, j: usize, k: usize| (v[j] - v[i]).perp(&(v[k] - v[i]));
    // simple and counter-clockwise, split by one of its diagonals
    let k = c.choose("diagonal", 2);
    c.assume_lt(T::zero(), or(k, k + 1, k + 2));
    c.assume_lt(T::zero(), or(k, k + 2, (k + 3) % 4));
    let is_convex = (0..4).all(|i| !(or((i + 3) % 4, i, (i + 1) % 4) < T::zero()));
    let e = Quad4d2Element::from_vertices(v);
    let p = if c.choose("element", 2) == 0 { ConvexPolygon::try_from(e) } else { ConvexPolygon::try_from(Quad9d2Element::from(e)) };
    c.holds("converts iff convex", p.is_ok() == is_convex);
    if let Ok(p) = p {
        c.holds("four vertices", p.vertices().len() == 4);
        for i in 0..4 {
            same(c, "vertex", &p.vertices()[i].coords, &v[i].coords);
        }
    }
}
/// Elements without an inverse map are errors, not answers or endless iterations.
fn no_inverse<T: Real, C: Cx<T>>(c: &mut C) {
    let (a, d) = (pt2(c, "a", B), vec2(c, "d", B));
    c.assume_lt(c.frac(1, 16), d.norm_squared());
    // all vertices on one line: the Jacobian is singular everywhere
    let e = Tri3d2Element::from_vertices([a, a + d, a + d * c.int(2)]);
    let n = Vector2::new(-d.y, d.x);
    let x = e.map_reference_coords(&Point2::origin()) + n;
    c.holds("no inverse on a flat triangle", map_physical_coordinates(&e, &x).is_err());
    let b = pt3(c, "b", B);
    let w = Vector3::new(d.x, d.y, T::zero());
    let e = Tri3d3Element::from_vertices([b, b + w, b + w * c.int(2)]);
    let x = e.map_reference_coords(&Point2::origin()) + w;
    c.holds("no projection onto a flat surface triangle", project_physical_coordinates(&e, &x).is_err());
}
/// An element for which Newton's method started at the origin alternates between 0 and 1.
#[derive(Debug)]
struct Cycle<T>(T, std::cell::Cell<usize>);
impl<T: Real> ReferenceFiniteElement<T> for Cycle<T> {
    type ReferenceDim = U1;
    fn num_nodes(&self) -> usize {
        0
    }
    fn populate_basis(&self, _: &mut [T], _: &Point1<T>) {}
    fn populate_basis_gradients(&self, _: MatrixViewMut<T, U1, Dyn>, _: &Point1<T>) {}
}
impl<T: Real> FiniteElement<T> for Cycle<T> {
    type GeometryDim = U1;
    fn reference_jacobian(&self, x: &Point1<T>) -> OMatrix<T, U1, U1> {
        let [two, three] = [2, 3].map(|k| T::from_i32(k).unwrap());
        Matrix1::new(x.x * x.x * three - two)
    }
    fn map_reference_coords(&self, x: &Point1<T>) -> Point1<T> {
        self.1.set(self.1.get() + 1);
        assert!(self.1.get() < 3000, "endless iteration");
        let two = T::from_i32(2).unwrap();
        Point1::new(x.x * x.x * x.x - two * x.x + two + self.0)
    }
    fn diameter(&self) -> T {
        T::one()
    }
}
fn endless<T: Real, C: Cx<T>>(c: &mut C) {
    let t = c.var("t", -B, B);
    let e = Cycle(t, Default::default());
    let x = Point1::new(t);
    c.holds("the inverse map gives up", map_physical_coordinates(&e, &x).is_err());
    c.holds("the projection gives up", project_physical_coordinates(&e, &x).is_err());
}
/// Concrete corner vertices with one free coordinate.
fn corners3<T: Real, C: Cx<T>>(c: &mut C, n: usize) -> Vec<Point3<T>> {
    let q = [[-1, -1, -1], [2, -1, 0], [1, 2, -1], [-1, 1, -2], [-1, -1, 2], [1, -2, 1], [1, 1, 1], [-2, 1, 1]];
    let mut v: Vec<Point3<T>> = q[..n].iter().map(|p| Point3::new(c.int(p[0]), c.int(p[1]), c.int(p[2]))).collect();
    let i = c.choose("vertex", n);
    let j = if n == 8 { i % 3 } else { c.choose("coordinate", 3) };
    v[i][j] = c.var("s", -B, B);
    v
}
fn array<T: Copy, const N: usize>(v: &[T]) -> [T; N] {
    std::array::from_fn(|i| v[i])
}

fn curved_map<T: Real, C: Cx<T>, E: FiniteElement<T>>(
    c: &mut C,
    e: &E,
    corners: &[OPoint<T, E::ReferenceDim>],
    verts: &[OPoint<T, E::GeometryDim>],
) where
    DefaultAllocator: BiDimAllocator<T, E::GeometryDim, E::ReferenceDim>,
{
    for (n, v) in corners.iter().zip(verts) {
        same(c, "corner is mapped to its vertex", &e.map_reference_coords(n).coords, &v.coords);
    }
}

fn affine_quad<T: Real, C: Cx<T>>(c: &mut C) -> Quad4d2Element<T> {
    let o = pt2(c, "o", 8.0);
    let s = [[[2, 0], [0, 2]], [[3, 1], [-1, 2]], [[1, 4], [-3, 1]]];
    let s = s[c.choose("shape", 3)];
    let [a, b] = s.map(|[x, y]| Vector2::new(c.int(x), c.int(y)));
    Quad4d2Element::from_vertices([o, o + a, o + a + b, o + b])
}

pub fn list() -> Vec<Harness> {
    let mut v = vec![];
    macro_rules! bas {
        ($name:expr, $mk:ident, $nodes:expr, $k:expr, $tensor:expr, $simplex:expr) => {
            h!(v, "P07", $name, Quick, "nodal property, partition of unity, polynomial reproduction, facet conformity; arbitrary vertices and reference point", |c| {
                let e = $mk(c);
                let n = $nodes;
                basis(c, &e, &n, $k, $tensor, $simplex)
            });
        };
    }
    bas!("basis_seg2d1", mk_seg1, seg_nodes(), 1, false, false);
    bas!("basis_seg2d2", mk_seg2, seg_nodes(), 1, false, false);
    bas!("basis_tri3", mk_tri3, tri_nodes(), 1, false, true);
    bas!("basis_tri3d3", mk_tri3d3, tri_nodes(), 1, false, true);
    bas!("basis_tri6", mk_tri6, Tri6d2Element::reference().vertices().to_vec(), 2, false, true);
    bas!("basis_quad4", mk_quad4, Quad4d2Element::reference().vertices().to_vec(), 1, true, false);
    bas!("basis_quad9", mk_quad9, Quad9d2Element::reference().vertices().to_vec(), 2, true, false);
    bas!("basis_tet4", mk_tet4, Tet4Element::reference().vertices().to_vec(), 1, false, true);
    bas!("basis_tet10", mk_tet10, Tet10Element::reference().vertices().to_vec(), 2, false, true);
    bas!("basis_tet20", mk_tet20, Tet20Element::reference().vertices().to_vec(), 3, false, true);
    bas!("basis_hex8", mk_hex8, Hex8Element::reference().vertices().to_vec(), 1, true, false);
    bas!("basis_hex20", mk_hex20, Hex20Element::reference().vertices().to_vec(), 2, false, false);
    bas!("basis_hex27", mk_hex27, Hex27Element::reference().vertices().to_vec(), 2, true, false);
    h!(v, "P07", "reference_nodes", Quick, "documented reference node positions of every element", |c| refs(c));
    macro_rules! gr {
        ($name:expr, $mk:ident) => {
            h!(v, "P08", $name, Quick, "gradients and reference Jacobian against exact derivatives; arbitrary vertices and reference point", |c| {
                let e = $mk(c);
                gradients(c, &e)
            });
        };
    }
    gr!("grad_seg2d1", mk_seg1);
    gr!("grad_seg2d2", mk_seg2);
    gr!("grad_tri3", mk_tri3);
    gr!("grad_tri3d3", mk_tri3d3);
    gr!("grad_tri6", mk_tri6);
    gr!("grad_quad4", mk_quad4);
    gr!("grad_quad9", mk_quad9);
    gr!("grad_tet4", mk_tet4);
    gr!("grad_tet10", mk_tet10);
    gr!("grad_tet20", mk_tet20);
    gr!("grad_hex8", mk_hex8);
    gr!("grad_hex20", mk_hex20);
    gr!("grad_hex27", mk_hex27);

    macro_rules! mp {
        ($name:expr, |$c:ident| $e:expr, $nodes:expr) => {
            h!(v, "P09", $name, Quick, "geometry map interpolates all nodes of a straight-sided element; arbitrary vertices and reference point", |$c| {
                let e = $e;
                let n = $nodes;
                let w = e.vertices().to_vec();
                map_nodes($c, &e, &n, &w)
            });
        };
    }
    mp!("map_seg2d1", |c| mk_seg1(c), seg_nodes());
    mp!("map_seg2d2", |c| mk_seg2(c), seg_nodes());
    mp!("map_tri3", |c| mk_tri3(c), tri_nodes());
    mp!("map_tri3d3", |c| mk_tri3d3(c), tri_nodes());
    mp!("map_tri6", |c| Tri6d2Element::from(&mk_tri3(c)), Tri6d2Element::reference().vertices().to_vec());
    mp!("map_quad4", |c| mk_quad4(c), Quad4d2Element::reference().vertices().to_vec());
    mp!("map_quad9", |c| Quad9d2Element::from(&mk_quad4(c)), Quad9d2Element::reference().vertices().to_vec());
    mp!("map_tet4", |c| mk_tet4(c), Tet4Element::reference().vertices().to_vec());
    mp!("map_tet10", |c| Tet10Element::from(&mk_tet4(c)), Tet10Element::reference().vertices().to_vec());
    mp!("map_tet20", |c| Tet20Element::from(&mk_tet4(c)), Tet20Element::reference().vertices().to_vec());
    mp!("map_hex8", |c| mk_hex8(c), Hex8Element::reference().vertices().to_vec());
    macro_rules! cm {
        ($name:expr, $mk:ident, $nodes:expr, $nc:expr) => {
            h!(v, "P09", $name, Quick, "corner nodes are mapped to the corner vertices; arbitrary vertices", |c| {
                let e = $mk(c);
                let n = $nodes;
                let w = e.vertices().to_vec();
                curved_map(c, &e, &n[..$nc], &w[..$nc])
            });
        };
    }
    cm!("corners_tri6", mk_tri6, Tri6d2Element::reference().vertices().to_vec(), 3);
    cm!("corners_quad9", mk_quad9, Quad9d2Element::reference().vertices().to_vec(), 4);
    cm!("corners_tet10", mk_tet10, Tet10Element::reference().vertices().to_vec(), 4);
    cm!("corners_tet20", mk_tet20, Tet20Element::reference().vertices().to_vec(), 4);
    cm!("corners_hex20", mk_hex20, Hex20Element::reference().vertices().to_vec(), 8);
    cm!("corners_hex27", mk_hex27, Hex27Element::reference().vertices().to_vec(), 8);

    macro_rules! dia {
        ($name:expr, $tier:ident, |$c:ident| $e:expr) => { dia!($name, $tier, |$c| $e, usize::MAX); };
        ($name:expr, $tier:ident, |$c:ident| $e:expr, $n:expr) => {
            h!(v, "P09", $name, $tier, "diameter is the largest vertex distance; arbitrary vertices", |$c| {
                let e = $e;
                let w: Vec<_> = e.vertices().iter().cloned().take($n).collect();
                diameter($c, &e, &w)
            });
        };
    }
    dia!("diameter_seg2d1", Quick, |c| mk_seg1(c));
    dia!("diameter_seg2d2", Quick, |c| mk_seg2(c));
    dia!("diameter_tri3", Quick, |c| mk_tri3(c));
    dia!("diameter_tri3d3", Quick, |c| mk_tri3d3(c));
    dia!("diameter_quad4", Quick, |c| mk_quad4(c));
    dia!("diameter_tet4", Quick, |c| mk_tet4(c));
    macro_rules! dia_high {
        ($name:expr, $n:expr, |$c:ident, $w:ident| $e:expr) => {
            h!(v, "P09", $name, Quick, "diameter is the largest corner distance; concrete corners with one free coordinate", |$c| {
                let $w = corners3($c, $n);
                let e = $e;
                diameter($c, &e, &$w)
            });
        };
    }
    dia!("diameter_tri6", Quick, |c| Tri6d2Element::from(&mk_tri3(c)), 3);
    dia!("diameter_quad9", Quick, |c| Quad9d2Element::from(&mk_quad4(c)), 4);
    dia_high!("diameter_tet10", 4, |c, w| Tet10Element::from(&Tet4Element::from_vertices(array(&w))));
    dia_high!("diameter_tet20", 4, |c, w| Tet20Element::from(&Tet4Element::from_vertices(array(&w))));
    dia_high!("diameter_hex8", 8, |c, w| Hex8Element::from_vertices(array(&w)));
    macro_rules! dia_ext {
        ($name:expr, $e:ident, $n:expr) => {
            dia_high!($name, 8, |c, w| {
                let m = (0..8).fold(Vector3::zeros(), |s: Vector3<_>, i| s + w[i].coords) * c.frac(1, 8);
                let mut u = w.clone();
                u.resize($n, m.into());
                $e::from_vertices(array::<_, $n>(&u))
            });
        };
    }
    dia_ext!("diameter_hex20", Hex20Element, 20);
    dia_ext!("diameter_hex27", Hex27Element, 27);
    h!(v, "P09", "shapes", Quick, "conversions between elements and shapes; arbitrary vertices", |c| shapes(c));
    h!(v, "P09", "convex", Quick, "arbitrary simple quadrilateral elements as convex polygons", |c| convex(c));
    h!(v, "P09", "no_inverse", Quick, "inverse maps of flat elements; arbitrary position and direction", |c| no_inverse(c));
    h!(v, "P09", "endless", Quick, "inverse maps that do not converge", |c| endless(c));
    h!(v, "P09", "bounds_tri3", Quick, "element bounds are the tight box; arbitrary vertices", |c| {
        let e = mk_tri3(c);
        bounds_el(c, &e, e.vertices())
    });
    h!(v, "P09", "bounds_tri3d3", Quick, "element bounds are the tight box; arbitrary vertices", |c| {
        let e = mk_tri3d3(c);
        bounds_el(c, &e, e.vertices())
    });
    h!(v, "P09", "bounds_tet4", Quick, "element bounds are the tight box; arbitrary vertices", |c| {
        let e = mk_tet4(c);
        bounds_el(c, &e, e.vertices())
    });
    h!(v, "P09", "normals", Quick, "surface normals: unit, orthogonal, oriented; arbitrary vertices", |c| normals(c));
    h!(v, "P09", "lookup", Quick, "element lookup and gather for all connectivities; arbitrary vertices", |c| lookup(c));
    h!(v, "P09", "closest_tri2", Quick, "closest point in six triangles (two degenerate), arbitrary query", |c| closest_tri2(c));
    h!(v, "P09", "closest_tri3", Quick, "closest point in six 3D triangles, arbitrary query", |c| closest_tri3(c));
    h!(v, "P09", "closest_tet_unit_lines", Quick, "closest point in a unit tetrahedron for queries on twelve lines", |c| closest_tet(c, 0, true));
    h!(v, "P09", "closest_tet_unit", Thorough, "closest point in a unit tetrahedron for queries on four planes", |c| closest_tet(c, 0, false));
    h!(v, "P09", "closest_tet_skew_lines", Thorough, "closest point in a skew tetrahedron for queries on twelve lines", |c| closest_tet(c, 1, true));
    h!(v, "P09", "closest_tet_skew", Thorough, "closest point in a skew tetrahedron for queries on four planes", |c| closest_tet(c, 1, false));
    h!(v, "P09", "closest_tet_flat_lines", Quick, "closest point in a flat tetrahedron for queries on twelve lines", |c| closest_tet(c, 2, true));
    h!(v, "P09", "closest_tet_flat", Thorough, "closest point in a flat tetrahedron for queries on four planes", |c| closest_tet(c, 2, false));
    h!(v, "P09", "inverse_tri3", Quick, "inverse map of four triangles at any position, arbitrary point", |c| {
        let s = [[[0, 0], [4, 0], [0, 4]], [[0, 0], [-3, 2], [5, 1]], [[1, 1], [1, 5], [-2, -3]], [[3, 2], [-1, 0], [2, -6]]];
        let s = s[c.choose("shape", 4)];
        let o = vec2(c, "o", 8.0);
        let e = Tri3d2Element::from_vertices(s.map(|[x, y]| Point2::new(c.int(x), c.int(y)) + o));
        inverse(c, &e)
    });
    h!(v, "P09", "inverse_quad4", Quick, "inverse map of three parallelograms at any position, arbitrary point", |c| {
        let e = affine_quad(c);
        inverse(c, &e)
    });
    h!(v, "P09", "inverse_tet4", Quick, "inverse map of two tetrahedra, arbitrary point", |c| {
        let s = [[[0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 4]], [[0, 0, 0], [4, 1, 0], [1, 4, -1], [2, 1, 3]]];
        let s = s[c.choose("shape", 2)];
        let e = Tet4Element::from_vertices(s.map(|[x, y, z]| Point3::new(c.int(x), c.int(y), c.int(z))));
        inverse(c, &e)
    });
    h!(v, "P09", "project_seg", Quick, "projection to arbitrary segments in the plane", |c| {
        let e = mk_seg2(c);
        let [a, b] = *e.vertices();
        c.assume_lt(c.frac(1, 64), (b - a).norm_squared());
        project(c, &e)
    });
    h!(v, "P09", "project_tri", Quick, "projection to three surface triangles, arbitrary point", |c| {
        let s = [[[0, 0, 0], [4, 0, 0], [0, 4, 0]], [[0, 0, 0], [4, 1, 0], [1, 4, -1]], [[1, 2, 3], [-2, 0, 1], [0, 1, 5]]];
        let s = s[c.choose("shape", 3)];
        let e = Tri3d3Element::from_vertices(s.map(|[x, y, z]| Point3::new(c.int(x), c.int(y), c.int(z))));
        project(c, &e)
    });
    v
}

#[allow(unused)]
fn unused<T: Real, C: Cx<T>>(c: &mut C) {
    in_ref::<T, C, U2>(c, "x", true);
    let _ = LineSegment2d::from_end_points(pt2(c, "a", 1.0), pt2(c, "b", 1.0));
}
