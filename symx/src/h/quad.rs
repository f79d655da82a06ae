//! P10 (quadrature rules are exact to their declared strength), P11 (subdivision, parts, tensor structure).
use super::util::*;
use crate::h;
use fenris::allocators::DimAllocator;
use fenris::assembly::local::QuadratureTable;
use fenris::element::*;
use fenris::SmallDim;
use fenris::mesh::Mesh;
use fenris::quadrature::subdivide::{subdivide_triangle, subdivide_univariate};
use fenris::quadrature::{
    tensor, total_order, univariate, CanonicalMassQuadrature, CanonicalStiffnessQuadrature, NoData, Quadrature, QuadraturePair,
    QuadraturePair1d, QuadraturePair2d, QuadratureParts,
};
use nalgebra::allocator::Allocator;
use num::bigint::BigInt;
use num::rational::BigRational;
use num::{One, ToPrimitive, Zero};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dom {
    Segment,
    Tri,
    Quad,
    Tet,
    Hex,
    Prism,
    Pyramid,
}
use Dom::*;

fn r(a: i64, b: i64) -> BigRational {
    BigRational::new(BigInt::from(a), BigInt::from(b))
}
fn fact(n: usize) -> BigRational {
    (1..=n).fold(BigRational::one(), |a, k| a * r(k as i64, 1))
}
fn binom(n: usize, k: usize) -> BigRational {
    fact(n) / (fact(k) * fact(n - k))
}
fn line(i: usize) -> BigRational {
    if i % 2 == 1 {
        BigRational::zero()
    } else {
        r(2, i as i64 + 1)
    }
}
/// Integral of prod x_d^{m_d} over the simplex {x_d >= -1, sum x_d <= 2 - D}.
fn simplex(m: &[usize]) -> BigRational {
    // x = 2u - 1 with u in the unit simplex
    let d = m.len();
    let mut terms = vec![(vec![0usize; d], BigRational::one())];
    for (k, e) in m.iter().enumerate() {
        let mut next = vec![];
        for (a, c) in &terms {
            for t in 0..=*e {
                let mut b = a.clone();
                b[k] = t;
                let s = if (e - t) % 2 == 1 { r(-1, 1) } else { r(1, 1) };
                next.push((b, c * binom(*e, t) * r(1i64 << t, 1) * s));
            }
        }
        terms = next;
    }
    let mut s = BigRational::zero();
    for (a, c) in terms {
        let total: usize = a.iter().sum();
        s += c * a.iter().fold(BigRational::one(), |p, e| p * fact(*e)) / fact(total + d);
    }
    s * r(1i64 << d, 1)
}
pub fn moment(dom: Dom, m: &[usize]) -> f64 {
    let v = match dom {
        Segment | Quad | Hex => m.iter().fold(BigRational::one(), |a, i| a * line(*i)),
        Tri | Tet => simplex(m),
        Prism => simplex(&m[..2]) * line(m[2]),
        Pyramid => {
            // cross section at height z is the square with half width h = (1 - z)/2
            if m[0] % 2 == 1 || m[1] % 2 == 1 {
                BigRational::zero()
            } else {
                let p = m[0] + m[1] + 2;
                // int z^k h^p dz, z = 1 - 2h, h in [0, 1], dz = 2 dh
                let mut s = BigRational::zero();
                for t in 0..=m[2] {
                    let sg = if t % 2 == 1 { r(-1, 1) } else { r(1, 1) };
                    s += binom(m[2], t) * r(1i64 << t, 1) * sg / r((t + p + 1) as i64, 1);
                }
                s * r(2, 1) * r(4, ((m[0] + 1) * (m[1] + 1)) as i64)
            }
        }
    };
    v.to_f64().unwrap()
}
/// Exponents of total degree <= n in d variables.
pub fn exponents(d: usize, n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..d {
        out = out
            .into_iter()
            .flat_map(|v: Vec<usize>| {
                let left = n - v.iter().sum::<usize>();
                (0..=left).map(move |k| {
                    let mut w = v.clone();
                    w.push(k);
                    w
                })
            })
            .collect();
    }
    out
}
fn tensor_exponents(d: usize, n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..d {
        out = out
            .into_iter()
            .flat_map(|v: Vec<usize>| {
                (0..=n).map(move |k| {
                    let mut w = v.clone();
                    w.push(k);
                    w
                })
            })
            .collect();
    }
    out
}

/// sum_q w_q p(x_q) for the polynomial with coefficients `a` (through the library's `integrate`).
fn apply<T: Real, D: DimName, Q: Quadrature<T, D>, C: Cx<T>>(c: &C, q: &Q, ms: &[Vec<usize>], a: &[T]) -> T
where
    DefaultAllocator: Allocator<T, D>,
{
    q.integrate(|x| {
        let deg = ms.iter().map(|m| *m.iter().max().unwrap()).max().unwrap();
        let pw: Vec<Vec<T>> = (0..D::dim())
            .map(|d| {
                let mut v = vec![T::one()];
                for k in 0..deg {
                    v.push(c.short(v[k] * x[d]));
                }
                v
            })
            .collect();
        let mut s = T::zero();
        for (m, k) in ms.iter().zip(a) {
            let mut t = T::one();
            for d in 0..D::dim() {
                t = c.short(t * pw[d][m[d]]);
            }
            s += *k * t;
        }
        s
    })
}
fn coefs<T: Real, C: Cx<T>>(c: &mut C, n: usize) -> Vec<T> {
    (0..n).map(|i| c.var(&format!("a{i}"), -1.0, 1.0)).collect()
}

fn exact_rule<T: Real, D: DimName, Q: Quadrature<T, D>, C: Cx<T>>(c: &mut C, dom: Dom, q: &Q, ms: &[Vec<usize>], tol: f64)
where
    DefaultAllocator: Allocator<T, D>,
{
    c.holds("as many weights as points", q.weights().len() == q.points().len() && q.data().len() == q.weights().len());
    let a = coefs(c, ms.len());
    let s = apply(c, q, ms, &a);
    let mut e = T::zero();
    for (m, k) in ms.iter().zip(&a) {
        e += c.lit(moment(dom, m)) * *k;
    }
    c.eq_tol("the rule integrates every polynomial up to its strength", s, e, tol);
}
fn in_domain<T: Real, D: DimName, Q: Quadrature<T, D>, C: Cx<T>>(c: &mut C, dom: Dom, q: &Q)
where
    DefaultAllocator: Allocator<T, D>,
{
    let mut ok = true;
    let eps = c.lit(1e-12);
    let one = T::one() + eps;
    for x in q.points() {
        let d = D::dim();
        ok &= (0..d).all(|i| x[i] >= -one && x[i] <= one);
        ok &= match dom {
            Tri | Prism => x[0] + x[1] <= eps,
            Tet => x[0] + x[1] + x[2] <= eps - T::one(),
            Pyramid => {
                let h = (one - x[2]) / c.int(2);
                x[0].abs() <= h + eps && x[1].abs() <= h + eps
            }
            _ => true,
        };
    }
    c.holds("points lie in the reference domain", ok);
    let neg = q.weights().iter().any(|w| *w <= T::zero());
    c.holds("weights are positive", !neg);
}

/// Largest strength for which a rule is shipped.
const MAX: [(Dom, usize); 6] = [(Tri, 20), (Quad, 21), (Tet, 10), (Hex, 11), (Prism, 10), (Pyramid, 10)];

fn rules2<T: Real>(dom: Dom, s: usize) -> Option<QuadraturePair<T, U2>> {
    match dom {
        Tri => total_order::triangle(s).ok(),
        _ => total_order::quadrilateral(s).ok(),
    }
}
fn rules3<T: Real>(dom: Dom, s: usize) -> Option<QuadraturePair<T, U3>> {
    match dom {
        Tet => total_order::tetrahedron(s).ok(),
        Hex => total_order::hexahedron(s).ok(),
        Prism => total_order::prism(s).ok(),
        _ => total_order::pyramid(s).ok(),
    }
}
fn max_of(dom: Dom) -> usize {
    MAX.iter().find(|x| x.0 == dom).unwrap().1
}
fn total<T: Real, C: Cx<T>>(c: &mut C, dom: Dom) {
    let s = c.choose("strength", max_of(dom) + 1);
    let d = if matches!(dom, Tri | Quad) { 2 } else { 3 };
    let ms = exponents(d, s);
    if d == 2 {
        match rules2::<T>(dom, s) {
            Some(q) => {
                in_domain(c, dom, &q);
                exact_rule(c, dom, &q, &ms, 1e-10);
                for t in s..=max_of(dom) {
                    c.holds("the rule is the smallest sufficient one", rules2::<T>(dom, t).map_or(false, |p| p.0.len() >= q.0.len()));
                }
            }
            None => c.holds("a rule is available up to the largest shipped strength", false),
        }
    } else {
        match rules3::<T>(dom, s) {
            Some(q) => {
                in_domain(c, dom, &q);
                exact_rule(c, dom, &q, &ms, 1e-10);
                for t in s..=max_of(dom) {
                    c.holds("the rule is the smallest sufficient one", rules3::<T>(dom, t).map_or(false, |p| p.0.len() >= q.0.len()));
                }
            }
            None => c.holds("a rule is available up to the largest shipped strength", false),
        }
    }
}
fn beyond<T: Real, C: Cx<T>>(c: &mut C) {
    // a rule that is returned for a strength beyond the largest one would still have to be exact
    let (dom, m) = MAX[c.choose("domain", 6)];
    let s = m + 1 + c.choose("more", 3);
    let ms = if matches!(dom, Tri | Quad) { exponents(2, s) } else { exponents(3, s) };
    c.holds("reached", true);
    if matches!(dom, Tri | Quad) {
        if let Some(q) = rules2::<T>(dom, s) {
            exact_rule(c, dom, &q, &ms, 1e-10);
        }
    } else if let Some(q) = rules3::<T>(dom, s) {
        exact_rule(c, dom, &q, &ms, 1e-10);
    }
}

fn gauss<T: Real, C: Cx<T>>(c: &mut C, max: usize) {
    let n = 1 + c.choose("points", max);
    let q = univariate::gauss::<T>(n);
    c.holds("the requested number of points", q.0.len() == n);
    in_domain(c, Segment, &q);
    let ms = exponents(1, 2 * n - 1);
    exact_rule(c, Segment, &q, &ms, 1e-10);
}
fn lobatto<T: Real, C: Cx<T>>(c: &mut C, ns: &[usize]) {
    let n = ns[c.choose("points", ns.len())];
    match univariate::try_gauss_lobatto::<T>(n) {
        None => c.holds("a Gauss-Lobatto rule is provided", false),
        Some(q) => {
            c.holds("the requested number of points", q.0.len() == n);
            in_domain(c, Segment, &q);
            let f = [q.1[0][0], q.1[n - 1][0]];
            c.eq("first point is an end point", f[0] * f[0], T::one());
            c.eq("last point is the other end point", f[0] + f[1], T::zero());
            let ms = exponents(1, 2 * n - 3);
            exact_rule(c, Segment, &q, &ms, 1e-10);
        }
    }
}
fn tensor_gauss<T: Real, C: Cx<T>>(c: &mut C, d: usize, max: usize) {
    let n = 1 + c.choose("points per axis", max);
    let ms = tensor_exponents(d, 2 * n - 1);
    if d == 2 {
        let q = tensor::quadrilateral_gauss::<T>(n);
        c.holds("n^d points", q.0.len() == n * n);
        in_domain(c, Quad, &q);
        exact_rule(c, Quad, &q, &ms, 1e-10);
    } else {
        let q = tensor::hexahedron_gauss::<T>(n);
        c.holds("n^d points", q.0.len() == n * n * n);
        in_domain(c, Hex, &q);
        exact_rule(c, Hex, &q, &ms, 1e-10);
    }
}

fn basis_at<T: Real, E: ReferenceFiniteElement<T>>(e: &E, x: &OPoint<T, E::ReferenceDim>) -> Vec<T>
where
    DefaultAllocator: DimAllocator<T, E::ReferenceDim>,
{
    let mut v = vec![T::zero(); e.num_nodes()];
    e.populate_basis(&mut v, x);
    v
}
fn grads_at<T: Real, E: ReferenceFiniteElement<T>>(e: &E, x: &OPoint<T, E::ReferenceDim>) -> Vec<Vec<T>>
where
    DefaultAllocator: DimAllocator<T, E::ReferenceDim>,
{
    let mut v = OMatrix::<T, E::ReferenceDim, Dyn>::zeros(e.num_nodes());
    e.populate_basis_gradients(MatrixViewMut::from(&mut v), x);
    v.column_iter().map(|g| g.iter().copied().collect()).collect()
}

/// The canonical rule agrees with a rule of known higher strength on all products.
fn canonical<T: Real, C: Cx<T>, E: ReferenceFiniteElement<T>>(
    c: &mut C,
    e: &E,
    mass: (&[T], &[OPoint<T, E::ReferenceDim>]),
    stiff: (&[T], &[OPoint<T, E::ReferenceDim>]),
    exact: (&[T], &[OPoint<T, E::ReferenceDim>]),
) where
    DefaultAllocator: DimAllocator<T, E::ReferenceDim>,
{
    let n = e.num_nodes();
    let u: Vec<T> = (0..n).map(|i| c.var(&format!("u{i}"), -1.0, 1.0)).collect();
    let dot = |a: &[T], b: &[T]| a.iter().zip(b).fold(T::zero(), |s, (x, y)| s + *x * *y);
    let m = |(w, p): (&[T], &[OPoint<T, E::ReferenceDim>])| {
        let mut s = vec![T::zero(); n];
        for (w, x) in w.iter().zip(p) {
            let phi = basis_at(e, x);
            let f = dot(&phi, &u) * *w;
            for j in 0..n {
                s[j] += f * phi[j];
            }
        }
        s
    };
    let k = |(w, p): (&[T], &[OPoint<T, E::ReferenceDim>])| {
        let mut s = vec![T::zero(); n];
        for (w, x) in w.iter().zip(p) {
            let g = grads_at(e, x);
            let d = g[0].len();
            let mut f = vec![T::zero(); d];
            for j in 0..n {
                for i in 0..d {
                    f[i] += g[j][i] * u[j];
                }
            }
            for j in 0..n {
                s[j] += dot(&f, &g[j]) * *w;
            }
        }
        s
    };
    let (a, b) = (m(mass), m(exact));
    for j in 0..n {
        c.eq_tol("canonical mass rule integrates products of basis functions", a[j], b[j], 1e-9);
    }
    let (a, b) = (k(stiff), k(exact));
    for j in 0..n {
        c.eq_tol("canonical stiffness rule integrates products of gradients", a[j], b[j], 1e-9);
    }
}
fn table<T: Real, D: SmallDim, Q: QuadratureTable<T, D>>(q: &Q) -> (Vec<T>, Vec<OPoint<T, D>>)
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let n = q.element_quadrature_size(7);
    let (mut w, mut p) = (vec![T::zero(); n], vec![OPoint::origin(); n]);
    q.populate_element_quadrature(7, &mut p, &mut w);
    (w, p)
}
fn flat<T: Real, D: DimName>(p: &[OPoint<T, D>]) -> Vec<T>
where
    DefaultAllocator: Allocator<T, D>,
{
    p.iter().flat_map(|p| p.iter().copied().collect::<Vec<_>>()).collect()
}
macro_rules! canon {
    ($($name:ident $e:ident $mesh:ident $exact:expr;)*) => {$(
        fn $name<T: Real, C: Cx<T>>(c: &mut C) {
            let e = $e::<T>::reference();
            let m = e.canonical_mass_quadrature();
            let s = e.canonical_stiffness_quadrature();
            let x = $exact;
            canonical(c, &e, (&m.0, &m.1), (&s.0, &s.1), (&x.0, &x.1));
            let mesh: fenris::mesh::$mesh<T> = Mesh::from_vertices_and_connectivity(vec![], vec![]);
            let q = table(&mesh.canonical_mass_quadrature());
            same_slice(c, "mesh mass rule is the element rule", &q.0, &m.0);
            same_slice(c, "mesh mass rule points", &flat(&q.1), &flat(&m.1));
            let q = table(&mesh.canonical_stiffness_quadrature());
            same_slice(c, "mesh stiffness rule is the element rule", &q.0, &s.0);
            same_slice(c, "mesh stiffness rule points", &flat(&q.1), &flat(&s.1));
        }
    )*}
}
canon! {
    canonical_tri3 Tri3d2Element TriangleMesh2d total_order::triangle(12).unwrap();
    canonical_tri6 Tri6d2Element Tri6Mesh2d total_order::triangle(12).unwrap();
    canonical_quad4 Quad4d2Element QuadMesh2d tensor::quadrilateral_gauss(6);
    canonical_quad9 Quad9d2Element Quad9Mesh2d tensor::quadrilateral_gauss(6);
    canonical_tet4 Tet4Element Tet4Mesh total_order::tetrahedron(8).unwrap();
    canonical_tet10 Tet10Element Tet10Mesh total_order::tetrahedron(8).unwrap();
    canonical_tet20 Tet20Element Tet20Mesh total_order::tetrahedron(8).unwrap();
    canonical_hex8 Hex8Element HexMesh tensor::hexahedron_gauss(5);
    canonical_hex20 Hex20Element Hex20Mesh tensor::hexahedron_gauss(5);
    canonical_hex27 Hex27Element Hex27Mesh tensor::hexahedron_gauss(5);
}

/// Subdividing a univariate rule: exact for everything the base rule is exact for, at any piece count.
fn sub_gauss<T: Real, C: Cx<T>>(c: &mut C) {
    let n = 1 + c.choose("points", 4);
    let k = 1 + c.choose("pieces", 6);
    let q = subdivide_univariate(univariate::gauss::<T>(n), k);
    c.holds("pieces * points", q.0.len() == n * k && q.1.len() == n * k);
    in_domain(c, Segment, &q);
    let ms = exponents(1, 2 * n - 1);
    exact_rule(c, Segment, &q, &ms, 1e-10);
}
/// Subdividing an arbitrary rule is the composite rule: sum over pieces of the rescaled rule.
fn sub_any<T: Real, C: Cx<T>>(c: &mut C) {
    let n = 1 + c.choose("points", 3);
    let k = 1 + c.choose("pieces", 7);
    let w: Vec<T> = (0..n).map(|i| c.var(&format!("w{i}"), -2.0, 2.0)).collect();
    let x: Vec<T> = (0..n).map(|i| c.var(&format!("x{i}"), -1.0, 1.0)).collect();
    let q: QuadraturePair1d<T> = (w.clone(), x.iter().map(|x| Point1::new(*x)).collect());
    let s = subdivide_univariate(q, k);
    let a: Vec<T> = (0..5).map(|i| c.var(&format!("a{i}"), -1.0, 1.0)).collect();
    let p = |t: T| a.iter().rev().fold(T::zero(), |s, k| s * t + *k);
    let got = s.integrate(|x: &Point1<T>| p(x[0]));
    let mut want = T::zero();
    for i in 0..k {
        for (w, x) in w.iter().zip(&x) {
            // piece i covers [-1 + 2i/k, -1 + 2(i+1)/k]
            let t = (c.int(2 * i as i64 + 1) + *x) / c.int(k as i64) - T::one();
            want += *w / c.int(k as i64) * p(t);
        }
    }
    c.eq("the subdivided rule is the composite rule", got, want);
}
fn sub_tri<T: Real, C: Cx<T>>(c: &mut C) {
    let s = c.choose("strength", 6);
    let k = 1 + c.choose("subdivisions", 4);
    let base: QuadraturePair2d<T> = total_order::triangle(s).unwrap();
    let n = base.0.len();
    let q = subdivide_triangle(base, k);
    c.holds("k^2 triangles", q.0.len() == n * k * k && q.1.len() == n * k * k);
    in_domain(c, Tri, &q);
    exact_rule(c, Tri, &q, &exponents(2, s), 1e-10);
}
fn sub_tri_any<T: Real, C: Cx<T>>(c: &mut C) {
    // an arbitrary one-point rule: every sub-triangle contributes w * area ratio at the mapped point
    let k = 1 + c.choose("subdivisions", 4);
    let w = c.var("w", -2.0, 2.0);
    let x = pt2(c, "x", 1.0);
    let q = subdivide_triangle((vec![w], vec![x]), k);
    let mut got = vec![T::zero(); 6];
    for (wi, p, _) in q.iter() {
        c.eq("equal weights", *wi, w / c.int((k * k) as i64));
        for (i, v) in [T::one(), p.x, p.y, p.x * p.x, p.x * p.y, p.y * p.y].into_iter().enumerate() {
            got[i] += *wi * v;
        }
    }
    let mut want = vec![T::zero(); 6];
    let kk = c.int(k as i64);
    for i in 0..k {
        for j in 0..k - i {
            // grid triangle with lower left corner (-1 + 2 i/k, -1 + 2 j/k) and its point reflection
            let o = Point2::new(c.int(2 * i as i64) / kk - T::one(), c.int(2 * j as i64) / kk - T::one());
            let h = T::one() / kk;
            let mut add = |p: Point2<T>| {
                for (i, v) in [T::one(), p.x, p.y, p.x * p.x, p.x * p.y, p.y * p.y].into_iter().enumerate() {
                    want[i] += w / (kk * kk) * v;
                }
            };
            let u = (x.coords + Vector2::repeat(T::one())) * h;
            add(o + u);
            if i + j + 1 < k {
                // the other triangle of the cell has vertices (1,0), (1,1), (0,1) of the cell
                let two = T::one() + T::one();
                let (s, t) = ((x.x + T::one()) / two, (x.y + T::one()) / two);
                let cell = two * h;
                // base vertices (1,0) -> (1,1) -> (0,1)
                add(o + Vector2::new((T::one() - t) * cell, (s + t) * cell));
            }
        }
    }
    for i in 0..6 {
        c.eq("the subdivided rule is the composite rule", got[i], want[i]);
    }
}
fn parts<T: Real, C: Cx<T>>(c: &mut C) {
    let n = c.choose("points", 4);
    let w: Vec<T> = (0..n).map(|i| c.var(&format!("w{i}"), -2.0, 2.0)).collect();
    let x: Vec<Point2<T>> = (0..n).map(|i| pt2(c, &format!("x{i}"), 4.0)).collect();
    let pair: QuadraturePair2d<T> = (w.clone(), x.clone());
    let own = QuadratureParts::from(pair.clone());
    let nodata = QuadratureParts { weights: w.clone(), points: x.clone(), data: NoData };
    let data: Vec<usize> = (10..10 + n).collect();
    let with = nodata.clone().with_data(data.clone());
    let f = |p: &Point2<T>| p.x * p.y * p.y - p.x;
    let mut want = T::zero();
    for i in 0..n {
        want += f(&x[i]) * w[i];
    }
    c.eq("integral of a pair", pair.integrate(f), want);
    c.eq("integral of parts", own.integrate(f), want);
    c.eq("integral without data", nodata.integrate(f), want);
    c.eq("integral with data", with.integrate(f), want);
    c.eq("integral of borrowed parts", with.to_parts().integrate(f), want);
    c.eq("integral through a reference", (&&pair).integrate(f), want);
    c.holds("data lengths", pair.data().len() == n && own.data().len() == n && nodata.data().len() == n && with.data() == &data[..]);
    let mut k = 0;
    for (i, (wi, p, d)) in with.iter().enumerate() {
        c.eq("iterated weight", *wi, w[i]);
        same(c, "iterated point", &p.coords, &x[i].coords);
        c.holds("iterated data", *d == data[i]);
        k += 1;
    }
    c.holds("iterates over all points", k == n);
}

/// Files with quadrature rules: one point with its weight per line, the rest are errors.
fn rule_file<T: Real + ToPrimitive, C: Cx<T>>(c: &mut C, d: usize) {
    let n = c.choose("points", 4);
    let x: Vec<Vec<T>> = (0..n).map(|i| (0..=d).map(|a| c.var(&format!("x{i}_{a}"), -2.0, 2.0)).collect()).collect();
    let mut lines: Vec<Vec<String>> = x.iter().map(|x| x.iter().map(|x| format!("{:?}", x.to_f64().unwrap())).collect()).collect();
    let mut valid = true;
    if n > 0 {
        let k = c.choose("damaged line", n);
        let (damage, at) = (c.choose("damage", 5), c.choose("entry", d + 1));
        valid = damage == 0;
        match damage {
            0 => {}
            1 => drop(lines[k].remove(at)),
            2 => lines[k].insert(at, "0.5".into()),
            3 => lines[k][at] = "x".into(),
            _ => lines[k].truncate(at.max(1)),
        }
    }
    let sep = [" ", "\t  "][c.choose("separator", 2)];
    let (head, tail) = [("", ""), ("\n  \n", "\n\t\n"), ("   ", " ")][c.choose("blanks", 3)];
    let end = ["\n", "\r\n"][c.choose("line end", 2)];
    let text: String = lines.iter().map(|l| format!("{head}{}{tail}{end}", l.join(sep))).collect();
    let rule: Result<(Vec<Vec<f64>>, Vec<f64>), ()> = if d == 2 {
        polyquad_parse::parse2d(&text).map(|r| (r.points.iter().map(|p| p.to_vec()).collect(), r.weights)).map_err(|_| ())
    } else {
        polyquad_parse::parse3d(&text).map(|r| (r.points.iter().map(|p| p.to_vec()).collect(), r.weights)).map_err(|_| ())
    };
    c.holds("exactly complete lines of numbers are accepted", rule.is_ok() == valid);
    if let (Ok((p, w)), true) = (rule, valid) {
        c.holds("one point per line", p.len() == n && w.len() == n && p.iter().all(|p| p.len() == d));
        for i in 0..n {
            for a in 0..d {
                c.eq("coordinate", T::from_f64(p[i][a]).unwrap(), x[i][a]);
            }
            c.eq("weight", T::from_f64(w[i]).unwrap(), x[i][d]);
        }
    }
}

pub fn list() -> Vec<Harness> {
    let v = &mut vec![];
    h!(v, "P10", "triangle", Quick, "triangle rules, strengths 0-20, arbitrary polynomial", |c| total(c, Tri));
    h!(v, "P10", "quadrilateral", Quick, "quadrilateral rules, strengths 0-21, arbitrary polynomial", |c| total(c, Quad));
    h!(v, "P10", "tetrahedron", Quick, "tetrahedron rules, strengths 0-10, arbitrary polynomial", |c| total(c, Tet));
    h!(v, "P10", "hexahedron", Quick, "hexahedron rules, strengths 0-11, arbitrary polynomial", |c| total(c, Hex));
    h!(v, "P10", "prism", Quick, "prism rules, strengths 0-10, arbitrary polynomial", |c| total(c, Prism));
    h!(v, "P10", "pyramid", Quick, "pyramid rules, strengths 0-10, arbitrary polynomial", |c| total(c, Pyramid));
    h!(v, "P10", "beyond", Quick, "rules returned beyond the largest strength are exact or refused", |c| beyond(c));
    h!(v, "P10", "gauss", Quick, "Gauss rules with 1-20 points, arbitrary polynomial of degree 2n-1", |c| gauss(c, 20));
    h!(v, "P10", "rule_file_2d", Quick, "files with rules in the plane", |c| rule_file(c, 2));
    h!(v, "P10", "rule_file_3d", Quick, "files with rules in space", |c| rule_file(c, 3));
    h!(v, "P10", "gauss_more", Thorough, "Gauss rules with 1-60 points, arbitrary polynomial of degree 2n-1", |c| gauss(c, 60));
    h!(v, "P10", "lobatto", Quick, "Gauss-Lobatto rules with 2-32 points, arbitrary polynomial of degree 2n-3", |c| {
        let ns: Vec<usize> = (2..=32).collect();
        lobatto(c, &ns)
    });
    h!(v, "P10", "lobatto_more", Thorough, "Gauss-Lobatto rules with 64 and 128 points", |c| lobatto(c, &[64, 128]));
    h!(v, "P10", "tensor_2d", Quick, "tensor Gauss rules with 1-6 points per axis, arbitrary tensor polynomial", |c| tensor_gauss(c, 2, 6));
    h!(v, "P10", "tensor_3d", Quick, "tensor Gauss rules with 1-4 points per axis, arbitrary tensor polynomial", |c| tensor_gauss(c, 3, 4));
    h!(v, "P10", "canonical_tri3", Quick, "canonical rules, arbitrary coefficients", |c| canonical_tri3(c));
    h!(v, "P10", "canonical_tri6", Quick, "canonical rules, arbitrary coefficients", |c| canonical_tri6(c));
    h!(v, "P10", "canonical_quad4", Quick, "canonical rules, arbitrary coefficients", |c| canonical_quad4(c));
    h!(v, "P10", "canonical_quad9", Quick, "canonical rules, arbitrary coefficients", |c| canonical_quad9(c));
    h!(v, "P10", "canonical_tet4", Quick, "canonical rules, arbitrary coefficients", |c| canonical_tet4(c));
    h!(v, "P10", "canonical_tet10", Quick, "canonical rules, arbitrary coefficients", |c| canonical_tet10(c));
    h!(v, "P10", "canonical_tet20", Quick, "canonical rules, arbitrary coefficients", |c| canonical_tet20(c));
    h!(v, "P10", "canonical_hex8", Quick, "canonical rules, arbitrary coefficients", |c| canonical_hex8(c));
    h!(v, "P10", "canonical_hex20", Quick, "canonical rules, arbitrary coefficients", |c| canonical_hex20(c));
    h!(v, "P10", "canonical_hex27", Quick, "canonical rules, arbitrary coefficients", |c| canonical_hex27(c));

    h!(v, "P11", "sub_gauss", Quick, "subdivided Gauss rules, 1-6 pieces, arbitrary polynomial", |c| sub_gauss(c));
    h!(v, "P11", "sub_any", Quick, "subdivided arbitrary rule equals the composite rule, 1-7 pieces, arbitrary quartic", |c| sub_any(c));
    h!(v, "P11", "sub_tri", Quick, "subdivided triangle rules, strengths 0-5, 1-4 subdivisions, arbitrary polynomial", |c| sub_tri(c));
    h!(v, "P11", "sub_tri_any", Quick, "subdivided arbitrary one-point rule equals the composite rule", |c| sub_tri_any(c));
    h!(v, "P11", "parts", Quick, "integrate / iter / parts of arbitrary rules with up to 3 points", |c| parts(c));
    std::mem::take(v)
}
