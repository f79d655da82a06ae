//! P12: integration over physical elements.
use super::fe::*;
use super::util::*;
use crate::h;
use fenris::allocators::{BiDimAllocator, DimAllocator};
use fenris::assembly::global::assemble_scalar;
use fenris::assembly::local::{ElementConnectivityAssembler, ElementScalarAssembler, GeneralQuadratureTable, UniformQuadratureTable};
use fenris::connectivity::*;
use fenris::element::*;
use fenris::integrate::dependency::{DependsOnGrad, DependsOnU, NoDeps};
use fenris::integrate::*;
use fenris::mesh::Mesh;
use fenris_nested_vec::NestedVec;
use fenris::quadrature::{tensor, total_order, QuadraturePair};
use nalgebra::allocator::Allocator;

const B: f64 = 4.0;

fn vf<T: Real, R: fenris::SmallDim, K: fenris::SmallDim, C: Cx<T>>(c: &mut C)
where
    DefaultAllocator: BiDimAllocator<T, R, K>,
{
    let mut j = OMatrix::<T, R, K>::zeros();
    for a in 0..R::dim() {
        for b in 0..K::dim() {
            j[(a, b)] = c.var(&format!("j{a}{b}"), -B, B);
        }
    }
    let v = volume_form(&j);
    c.le("volume form is non-negative", T::zero(), v);
    c.eq("squared volume form is the sum of the squared minors", v * v, vol2(&dmat(&j)));
}

fn rule<T: Real, D: DimName, C: Cx<T>>(c: &mut C, n: usize) -> QuadraturePair<T, D>
where
    DefaultAllocator: Allocator<T, D>,
{
    let w = (0..n).map(|i| c.var(&format!("w{i}"), -2.0, 2.0)).collect();
    let p = (0..n).map(|i| ptn::<T, D, C>(c, &format!("xi{i}"), 1.0)).collect();
    (w, p)
}

macro_rules! surface {
    ($($n:ident $e:ident $d:ident $r:ident $p:expr;)*) => {$(
/// f(x, u) = (x_0 * u_0 + 1, u_0 - x_last)
fn $n<T: Real, C: Cx<T>>(c: &mut C) {
    let e = $e::<T>::mk(c, "v", B);
    let q = rule::<T, $r, C>(c, $p);
    let n = e.num_nodes();
    let u = DVector::from_iterator(n, (0..n).map(|i| c.var(&format!("u{i}"), -B, B)));
    let last = $d::dim() - 1;
    let mut ws = IntegrationWorkspace::default();
    let f = FnFunction::new(|x: &OPoint<T, $d>, u: &OVector<T, U1>| Vector2::new(x[0] * u[0] + T::one(), u[0] - x[last]));
    let got = integrate_over_element(&f, &e, &q, &u, &mut ws);
    let mut want = Vector2::zeros();
    for (w, xi) in q.0.iter().zip(&q.1) {
        let (x, phi) = (e.map_reference_coords(xi), basis_of(&e, xi));
        let uh = phi.iter().zip(u.iter()).fold(T::zero(), |s, (a, b)| s + *a * *b);
        let v = volume_form(&e.reference_jacobian(xi));
        want[0] += *w * v * (x[0] * uh + T::one());
        want[1] += *w * v * (uh - x[last]);
    }
    c.eq("integral of x u + 1", got[0], want[0]);
    c.eq("integral of u - x", got[1], want[1]);
    let g = FnFunction::new(|x: &OPoint<T, $d>| Vector2::new(x[0], T::one())).with_dependencies::<NoDeps<U1>>();
    let got = integrate_over_element(&g, &e, &q, &u, &mut ws);
    let mut want = Vector2::zeros();
    for (w, xi) in q.0.iter().zip(&q.1) {
        let v = volume_form(&e.reference_jacobian(xi));
        want[0] += *w * v * e.map_reference_coords(xi)[0];
        want[1] += *w * v;
    }
    c.eq("integral of x", got[0], want[0]);
    c.eq("measure", got[1], want[1]);
}
    )*};
}
surface! {
    element_seg2d1 Segment2d1Element U1 U1 2;
    element_seg2d2 Segment2d2Element U2 U1 2;
    element_tri3 Tri3d2Element U2 U2 2;
    element_tri3d3 Tri3d3Element U3 U2 2;
    element_tri6 Tri6d2Element U2 U2 2;
    element_quad4 Quad4d2Element U2 U2 2;
    element_quad9 Quad9d2Element U2 U2 1;
    element_tet4 Tet4Element U3 U3 2;
    element_tet10 Tet10Element U3 U3 1;
    element_hex8 Hex8Element U3 U3 1;
}

macro_rules! volume {
    ($($n:ident $e:ident $d:ident $s:ident;)*) => {$(
/// Integrands with gradients; scalar or vector-valued solution.
fn $n<T: Real, C: Cx<T>>(c: &mut C) {
    let e = $e::<T>::mk(c, "v", B);
    let (d, s) = ($d::dim(), $s::dim());
    let q = rule::<T, $d, C>(c, 1);
    let n = e.num_nodes();
    let u = DVector::from_iterator(s * n, (0..s * n).map(|i| c.var(&format!("u{i}"), -B, B)));
    let mut ws = IntegrationWorkspace::default();
    let j = e.reference_jacobian(&q.1[0]);
    let dj = det(&dmat(&j));
    c.assume_ne(dj, T::zero());
    // one component of the gradient per integrand output
    let f = FnFunction::new(|_x: &OPoint<T, $d>, u: &OVector<T, $s>, g: &OMatrix<T, $d, $s>| {
        let mut r = OVector::<T, U9>::zeros();
        for i in 0..d {
            for k in 0..s {
                r[d * k + i] = g[(i, k)] + u[0] - u[0];
            }
        }
        r
    });
    match integrate_over_volume_element(&f, &e, &q, &u, &mut ws) {
        Err(_) => c.holds("a regular element is not reported singular", false),
        Ok(r) => {
            // J^T (integral of grad u) = w |J| sum_i u_i grad phi_i
            let g = grads_of(&e, &q.1[0]);
            let vol = volume_form(&j);
            for k in 0..s {
                for a in 0..d {
                    let l = (0..d).fold(T::zero(), |t, i| t + j[(i, a)] * r[d * k + i]);
                    let w = (0..n).fold(T::zero(), |t, i| t + g[(a, i)] * u[s * i + k]);
                    c.eq("gradient of the interpolation in physical space", l, w * q.0[0] * vol);
                }
            }
        }
    }
    let f = FnFunction::new(|x: &OPoint<T, $d>, u: &OVector<T, $s>| Vector2::new(x[0] * u[s - 1], u[0] * u[s - 1])).with_dependencies::<DependsOnU>();
    if let Ok(r) = integrate_over_volume_element(&f, &e, &q, &u, &mut ws) {
        let phi = basis_of(&e, &q.1[0]);
        let uh: Vec<T> = (0..s).map(|k| (0..n).fold(T::zero(), |t, i| t + phi[i] * u[s * i + k])).collect();
        let w = q.0[0] * volume_form(&j);
        c.eq("integrand depending on u", r[0], e.map_reference_coords(&q.1[0])[0] * uh[s - 1] * w);
        c.eq("integrand depending on u", r[1], uh[0] * uh[s - 1] * w);
    }
}
    )*};
}
volume! {
    gradient_tri3 Tri3d2Element U2 U2;
    gradient_quad4 Quad4d2Element U2 U2;
    gradient_tri6 Tri6d2Element U2 U2;
    gradient_tet4 Tet4Element U3 U2;
    gradient_tri3_scalar Tri3d2Element U2 U1;
    gradient_tri3_wide Tri3d2Element U2 U3;
    gradient_tet4_vector Tet4Element U3 U3;
}
macro_rules! distorted {
    ($($n:ident $e:ident $d:ident;)*) => {$(
/// A distorted element, all nodal values and weights: integrands with values and gradients at two points.
fn $n<T: Real, C: Cx<T>>(c: &mut C) {
    let r = $e::<T>::reference();
    let e = $e::from_vertices(std::array::from_fn(|k| wiggle(c, k, &r.vertices()[k])));
    let (n, d, s) = (e.num_nodes(), $d::dim(), 2);
    let w: Vec<T> = (0..2).map(|i| c.var(&format!("w{i}"), -B, B)).collect();
    let q = (w, fixed_points::<T, $d, C>(c, 2));
    let u = DVector::from_iterator(s * n, (0..s * n).map(|i| c.var(&format!("u{i}"), -B, B)));
    let mut ws = IntegrationWorkspace::default();
    let f = FnFunction::new(|x: &OPoint<T, $d>, u: &OVector<T, U2>, g: &OMatrix<T, $d, U2>| {
        let mut r = OVector::<T, U8>::zeros();
        for k in 0..s {
            for i in 0..d {
                r[d * k + i] = g[(i, k)] * x[0];
            }
            r[6 + k] = u[k] * x[d - 1];
        }
        r
    });
    let Ok(r) = integrate_over_volume_element(&f, &e, &q, &u, &mut ws) else {
        c.holds("a regular element is not reported singular", false);
        return;
    };
    let mut want = OVector::<T, U8>::zeros();
    for (w, p) in q.0.iter().zip(&q.1) {
        let j = dmat(&e.reference_jacobian(p));
        let g = phys_grads(&j, &dyn_grads(&grads_of(&e, p)));
        let (phi, x, w) = (basis_of(&e, p), e.map_reference_coords(p), *w * det(&j).abs());
        for k in 0..s {
            for m in 0..n {
                for i in 0..d {
                    want[d * k + i] += w * g[(i, m)] * u[s * m + k] * x[0];
                }
                want[6 + k] += w * phi[m] * u[s * m + k] * x[d - 1];
            }
        }
    }
    for k in 0..8 {
        c.eq("integral", r[k], want[k]);
    }
}
    )*};
}
distorted! {
    distorted_quad9 Quad9d2Element U2;
    distorted_tet10 Tet10Element U3;
    distorted_hex8 Hex8Element U3;
    distorted_hex20 Hex20Element U3;
    distorted_hex27 Hex27Element U3;
    distorted_tet20 Tet20Element U3;
}
fn deps_grad<T: Real, C: Cx<T>>(c: &mut C) {
    // the linear function u(x) = a.x + b has gradient a whatever the element
    let e = Tri6d2Element::<T>::mk(c, "v", B);
    let a = vec2(c, "a", B);
    let b = c.var("b", -B, B);
    let q = rule::<T, U2, C>(c, 2);
    let u = DVector::from_iterator(6, e.vertices().iter().map(|v| a.dot(&v.coords) + b));
    let mut ws = IntegrationWorkspace::default();
    let j = e.reference_jacobian(&q.1[0]).determinant();
    c.assume_ne(j, T::zero());
    let f = FnFunction::new(|_: &Point2<T>, g: &OMatrix<T, U2, U1>| Vector2::new(g[0], g[1])).with_dependencies::<DependsOnGrad>();
    // straight-sided: the mid nodes sit at the mid points
    let t = e.vertices();
    let mid = |i: usize, j: usize| Point2::from((t[i].coords + t[j].coords) / (T::one() + T::one()));
    let e = Tri6d2Element::from_vertices([t[0], t[1], t[2], mid(0, 1), mid(1, 2), mid(0, 2)]);
    let u = {
        let _ = u;
        DVector::from_iterator(6, e.vertices().iter().map(|v| a.dot(&v.coords) + b))
    };
    match integrate_over_volume_element(&f, &e, &q, &u, &mut ws) {
        Err(_) => c.holds("a regular element is not reported singular", false),
        Ok(r) => {
            let s = (q.0[0] + q.0[1]) * j.abs();
            c.eq("gradient of a linear function", r[0], a.x * s);
            c.eq("gradient of a linear function", r[1], a.y * s);
        }
    }
}
fn singular<T: Real, C: Cx<T>>(c: &mut C) {
    let (a, b) = (pt2(c, "a", B), pt2(c, "b", B));
    let s = c.var("s", -B, B);
    let e = Tri3d2Element::from_vertices([a, b, a + (b - a) * s]);
    let u = DVector::from_element(3, T::one());
    let f = FnFunction::new(|_: &Point2<T>, g: &OMatrix<T, U2, U1>| Vector2::new(g[0], g[1])).with_dependencies::<DependsOnGrad>();
    let q: QuadraturePair<T, U2> = total_order::triangle(1).unwrap();
    let r = integrate_over_volume_element(&f, &e, &q, &u, &mut IntegrationWorkspace::default());
    c.holds("a degenerate element is reported", r.is_err());
    let one = FnFunction::new(|_: &Point2<T>| Vector1::new(T::one())).with_dependencies::<NoDeps<U1>>();
    let r = integrate_over_element(&one, &e, &q, &u, &mut IntegrationWorkspace::default());
    c.eq("a degenerate element has no area", r[0], T::zero());
}

/// Shipped rules on arbitrary simplices: exact moments.
fn moments_tri<T: Real, C: Cx<T>>(c: &mut C) {
    let v = verts_of::<T, C, U2, 3>(c, "v", 2.0);
    let e = Tri3d2Element::from_vertices(v);
    let area2 = (v[1] - v[0]).perp(&(v[2] - v[0]));
    let pos = c.choose("orientation", 2) == 1;
    if pos {
        c.assume_lt(T::zero(), area2);
    } else {
        c.assume_lt(area2, T::zero());
    }
    let area2 = if pos { area2 } else { -area2 };
    let f = FnFunction::new(|x: &Point2<T>| Vector4::new(T::one(), x.x, x.x * x.y, x.y * x.y)).with_dependencies::<NoDeps<U1>>();
    let q: QuadraturePair<T, U2> = total_order::triangle(2).unwrap();
    let r = integrate_over_element(&f, &e, &q, &DVector::from_element(3, T::one()), &mut IntegrationWorkspace::default());
    let sum = |g: &dyn Fn(&Point2<T>) -> T| v.iter().fold(T::zero(), |s, p| s + g(p));
    let (sx, sy) = (sum(&|p| p.x), sum(&|p| p.y));
    c.eq_tol("area", r[0], area2 / c.int(2), 1e-9);
    c.eq_tol("first moment", r[1], area2 * sx / c.int(6), 1e-9);
    c.eq_tol("mixed second moment", r[2], area2 * (sx * sy + sum(&|p| p.x * p.y)) / c.int(24), 1e-9);
    c.eq_tol("second moment", r[3], area2 * (sy * sy + sum(&|p| p.y * p.y)) / c.int(24), 1e-9);
}
fn moments_tet<T: Real, C: Cx<T>>(c: &mut C) {
    let v = verts_of::<T, C, U3, 4>(c, "v", 2.0);
    let e = Tet4Element::from_vertices(v);
    let d = (v[1] - v[0]).cross(&(v[2] - v[0])).dot(&(v[3] - v[0]));
    c.assume_lt(T::zero(), d);
    let f = FnFunction::new(|x: &Point3<T>| Vector3::new(T::one(), x.z, x.x * x.y)).with_dependencies::<NoDeps<U1>>();
    let q: QuadraturePair<T, U3> = total_order::tetrahedron(2).unwrap();
    let r = integrate_over_element(&f, &e, &q, &DVector::from_element(4, T::one()), &mut IntegrationWorkspace::default());
    let sum = |g: &dyn Fn(&Point3<T>) -> T| v.iter().fold(T::zero(), |s, p| s + g(p));
    let (sx, sy) = (sum(&|p| p.x), sum(&|p| p.y));
    c.eq_tol("volume", r[0], d / c.int(6), 1e-9);
    c.eq_tol("first moment", r[1], d * sum(&|p| p.z) / c.int(24), 1e-9);
    c.eq_tol("mixed second moment", r[2], d * (sx * sy + sum(&|p| p.x * p.y)) / c.int(120), 1e-8);
}
fn area_quad<T: Real, C: Cx<T>>(c: &mut C) {
    let v = verts_of::<T, C, U2, 4>(c, "v", 2.0);
    let e = Quad4d2Element::from_vertices(v);
    // convex and counter-clockwise: positive Jacobian at all corners
    for i in 0..4 {
        let (a, b, d) = (v[i], v[(i + 1) % 4], v[(i + 3) % 4]);
        c.assume_lt(T::zero(), (b - a).perp(&(d - a)));
    }
    let n = 1 + c.choose("points per axis", 2);
    let q: QuadraturePair<T, U2> = tensor::quadrilateral_gauss(n);
    for p in &q.1 {
        let j = det(&dmat(&e.reference_jacobian(p)));
        c.assume_lt(T::zero(), j); // follows from the corner conditions; stated to keep the branch of |.| simple
    }
    let one = FnFunction::new(|_: &Point2<T>| Vector1::new(T::one())).with_dependencies::<NoDeps<U1>>();
    let r = integrate_over_element(&one, &e, &q, &DVector::from_element(4, T::one()), &mut IntegrationWorkspace::default());
    let mut s = T::zero();
    for i in 0..4 {
        s += v[i].coords.perp(&v[(i + 1) % 4].coords);
    }
    c.eq_tol("area", r[0], s / c.int(2), 1e-9);
}

/// Assemblers over a mesh: element integrals use that element's vertices, values and rule; the total is their sum.
fn assembler<T: Real, C: Cx<T>>(c: &mut C) {
    let v = verts_of::<T, C, U2, 4>(c, "v", B).to_vec();
    let mesh = Mesh::<T, U2, Tri3d2Connectivity>::from_vertices_and_connectivity(
        v.clone(),
        vec![Tri3d2Connectivity([0, 1, 2]), Tri3d2Connectivity([3, 2, 1])],
    );
    let u = DVector::from_iterator(8, (0..8).map(|i| c.var(&format!("u{i}"), -B, B)));
    let rules: Vec<QuadraturePair<T, U2>> = (0..2)
        .map(|k| {
            let n = 2 - k;
            let w = (0..n).map(|i| c.var(&format!("w{k}{i}"), -2.0, 2.0)).collect();
            let p = (0..n).map(|i| ptn::<T, U2, C>(c, &format!("xi{k}{i}"), 1.0)).collect();
            (w, p)
        })
        .collect();
    let (mut ps, mut wsn) = (NestedVec::new(), NestedVec::new());
    for r in &rules {
        ps.push(&r.1);
        wsn.push(&r.0);
    }
    let table = GeneralQuadratureTable::from_points_and_weights(ps, wsn);
    let f = || FnFunction::new(|x: &Point2<T>, u: &OVector<T, U2>| Vector1::new(x.x * u[0] + u[1] * u[1]));
    let a = ElementIntegralAssemblerBuilder::new()
        .with_space(&mesh)
        .with_quadrature_table(&table)
        .with_interpolation_weights(&u)
        .with_integrand(f())
        .build_integrator();
    let mut total = T::zero();
    let order = if c.choose("order", 2) == 0 { [0, 1] } else { [1, 0] };
    for k in order {
        let ids = mesh.connectivity()[k].0;
        let e = Tri3d2Element::from_vertices(ids.map(|i| v[i]));
        let ul = DVector::from_iterator(6, ids.iter().flat_map(|i| [u[2 * i], u[2 * i + 1]]));
        let want = integrate_over_element(&f(), &e, &rules[k], &ul, &mut IntegrationWorkspace::default());
        match a.assemble_element_scalar(k) {
            Ok(x) => c.eq("element integral of the assembler", x, want[0]),
            Err(_) => c.holds("assembler succeeds", false),
        }
        total += want[0];
    }
    match assemble_scalar(&a) {
        Ok(x) => c.eq("total is the sum over elements", x, total),
        Err(_) => c.holds("assembler succeeds", false),
    }
}
fn volume_assembler<T: Real, C: Cx<T>>(c: &mut C) {
    // u(x) = a.x + b on two triangles: the energy |grad u|^2 / area integrates to |a|^2 times the area
    let v = verts_of::<T, C, U2, 4>(c, "v", B).to_vec();
    let mesh = Mesh::<T, U2, Tri3d2Connectivity>::from_vertices_and_connectivity(
        v.clone(),
        vec![Tri3d2Connectivity([0, 1, 2]), Tri3d2Connectivity([3, 2, 1])],
    );
    let g = vec2(c, "a", B);
    let b = c.var("b", -B, B);
    let u = DVector::from_iterator(4, v.iter().map(|v| g.dot(&v.coords) + b));
    let d = [(v[1] - v[0]).perp(&(v[2] - v[0])), (v[2] - v[3]).perp(&(v[1] - v[3]))];
    for d in d {
        c.assume_lt(T::zero(), d);
    }
    let w = c.var("w", -2.0, 2.0);
    let xi = pt2(c, "xi", 1.0);
    let table = UniformQuadratureTable::from_points_and_weights(vec![xi], vec![w]);
    let f = FnFunction::new(|_: &Point2<T>, _: &OVector<T, U1>, g: &OMatrix<T, U2, U1>| Vector1::new(g.dot(g)));
    let a = ElementIntegralAssemblerBuilder::new()
        .with_space(&mesh)
        .with_quadrature_table(&table)
        .with_interpolation_weights(&u)
        .with_integrand(f)
        .build_volume_integrator();
    for k in 0..2 {
        match a.assemble_element_scalar(k) {
            Ok(x) => c.eq("element integral of the gradient", x, g.dot(&g) * w * d[k] / c.int(4)),
            Err(_) => c.holds("assembler succeeds", false),
        }
    }
    match assemble_scalar(&a) {
        Ok(x) => c.eq("total is the sum over elements", x, g.dot(&g) * w * (d[0] + d[1]) / c.int(4)),
        Err(_) => c.holds("assembler succeeds", false),
    }
}

/// What the assemblers report about the space, a singular element among regular ones, and plain functions of position.
fn assembler_info<T: Real, C: Cx<T>>(c: &mut C) {
    let v = verts_of::<T, C, U2, 4>(c, "v", B).to_vec();
    let d = (v[1] - v[0]).perp(&(v[2] - v[0]));
    c.assume_lt(T::zero(), d);
    // vertices 0, 1, 2 span a triangle, the element [1, 4, 2] is degenerate, node 5 belongs to no element
    let s = c.var("s", -B, B);
    let verts = vec![v[0], v[1], v[2], v[3], v[1] + (v[2] - v[1]) * s, v[3]];
    let bad = c.choose("degenerate", 3);
    let mut conn = vec![Tri3d2Connectivity([0, 1, 2]); 2];
    if bad < 2 {
        conn[bad] = Tri3d2Connectivity([1, 4, 2]);
    }
    let mesh = Mesh::<T, U2, Tri3d2Connectivity>::from_vertices_and_connectivity(verts, conn.clone());
    let u = DVector::from_iterator(12, (0..12).map(|i| c.int(i as i64 % 5)));
    let w = c.var("w", -2.0, 2.0);
    let xi = pt2(c, "xi", 1.0);
    let table = UniformQuadratureTable::from_points_and_weights(vec![xi], vec![w]);
    let f = FnFunction::new(|_: &Point2<T>, _: &OVector<T, U2>, _: &OMatrix<T, U2, U2>| Vector1::new(T::one()));
    let a = ElementIntegralAssemblerBuilder::new()
        .with_space(&mesh)
        .with_quadrature_table(&table)
        .with_interpolation_weights(&u)
        .with_integrand(f)
        .build_volume_integrator();
    let g = FnFunction::new(|_: &Point2<T>, _: &OVector<T, U2>| Vector1::new(T::one()));
    let b = ElementIntegralAssemblerBuilder::new()
        .with_space(&mesh)
        .with_quadrature_table(&table)
        .with_interpolation_weights(&u)
        .with_integrand(g)
        .build_integrator();
    macro_rules! info {
        ($a:expr) => {{
            c.holds("solution dimension", $a.solution_dim() == 2);
            c.holds("number of elements", $a.num_elements() == 2);
            c.holds("number of nodes", $a.num_nodes() == 6);
            for i in 0..2 {
                c.holds("nodes of an element", $a.element_node_count(i) == 3);
                let mut n = [7; 3];
                $a.populate_element_nodes(&mut n, i);
                c.holds("element nodes", n == conn[i].0);
            }
        }};
    }
    info!(a);
    info!(b);
    for i in 0..2 {
        match a.assemble_element_scalar(i) {
            Ok(x) => {
                c.holds("a degenerate element is reported", i != bad);
                c.eq("integral over a regular element", x, w * d / c.int(4));
            }
            Err(_) => c.holds("a regular element is not reported singular", i == bad),
        }
        match b.assemble_element_scalar(i) {
            Ok(x) => c.eq("integral without gradients", x, if i == bad { T::zero() } else { w * d / c.int(4) }),
            Err(_) => c.holds("integration without gradients succeeds", false),
        }
    }
    match assemble_scalar(&a) {
        Ok(x) => {
            c.holds("a mesh with a degenerate element is reported", bad == 2);
            c.eq("total", x, w * d / c.int(2));
        }
        Err(_) => c.holds("a regular mesh is not reported", bad < 2),
    }
    // plain functions
    let h = FnFunction::new(|x: &Point2<T>| Vector2::new(x.x * x.y, x.x - x.y));
    let r = Function::<T, U2>::evaluate(&h, &v[0]);
    c.eq("plain function", r[0], v[0].x * v[0].y);
    c.eq("plain function", r[1], v[0].x - v[0].y);
}
/// The builder rejects values whose length does not match the space.
fn builder<T: Real, C: Cx<T>>(c: &mut C) {
    let v = verts_of::<T, C, U2, 3>(c, "v", B).to_vec();
    let mesh = Mesh::<T, U2, Tri3d2Connectivity>::from_vertices_and_connectivity(v, vec![Tri3d2Connectivity([0, 1, 2])]);
    let n = c.choose("values", 9);
    let u = DVector::from_element(n, T::one());
    let table = UniformQuadratureTable::from_points_and_weights(vec![Point2::origin()], vec![T::one()]);
    let volume = c.choose("assembler", 2) == 0;
    let p = panics(|| {
        macro_rules! b {
            () => {
                ElementIntegralAssemblerBuilder::new().with_space(&mesh).with_quadrature_table(&table).with_interpolation_weights(&u)
            };
        }
        if volume {
            let f = FnFunction::new(|_: &Point2<T>, _: &OVector<T, U2>, _: &OMatrix<T, U2, U2>| Vector1::new(T::one()));
            b!().with_integrand(f).build_volume_integrator();
        } else {
            let f = FnFunction::new(|_: &Point2<T>, _: &OVector<T, U2>| Vector1::new(T::one()));
            b!().with_integrand(f).build_integrator();
        }
    });
    c.holds("one value per node and component is required", p == (n != 6));
}

pub fn list() -> Vec<Harness> {
    let mut v = vec![];
    macro_rules! vfh {
        ($n:expr, $r:ident, $k:ident) => {
            h!(v, "P12", $n, Quick, "volume form of an arbitrary Jacobian", |c| vf::<_, $r, $k, _>(c));
        };
    }
    vfh!("volume_form_1x1", U1, U1);
    vfh!("volume_form_2x2", U2, U2);
    vfh!("volume_form_3x3", U3, U3);
    vfh!("volume_form_2x1", U2, U1);
    vfh!("volume_form_3x1", U3, U1);
    vfh!("volume_form_3x2", U3, U2);
    macro_rules! el {
        ($about:expr, $($f:ident $t:ident),*) => {$( h!(v, "P12", stringify!($f), $t, $about, |c| $f(c)); )*};
    }
    el!("integral of f(x, u) over an arbitrary element with an arbitrary rule", element_seg2d1 Quick, element_seg2d2 Quick, element_tri3 Quick,
        element_tri3d3 Quick, element_tri6 Quick, element_quad4 Quick, element_quad9 Quick, element_tet4 Quick, element_tet10 Quick, element_hex8 Quick);
    el!("integral of f(x, u, grad u) over a distorted element", distorted_quad9 Quick, distorted_tet10 Quick, distorted_hex8 Quick, distorted_hex20 Quick, distorted_hex27 Quick, distorted_tet20 Quick);
    el!("integral of f(x, u, grad u) over an arbitrary element at an arbitrary point", gradient_tri3 Quick, gradient_quad4 Quick, gradient_tri6 Quick, gradient_tet4 Quick, gradient_tri3_scalar Quick, gradient_tri3_wide Quick, gradient_tet4_vector Quick);
    h!(v, "P12", "linear_tri6", Quick, "gradient of a linear function on an arbitrary straight-sided Tri6", |c| deps_grad(c));
    h!(v, "P12", "singular", Quick, "degenerate triangles are reported", |c| singular(c));
    h!(v, "P12", "moments_tri", Quick, "area and moments of an arbitrary triangle", |c| moments_tri(c));
    h!(v, "P12", "moments_tet", Quick, "volume and moments of an arbitrary tetrahedron", |c| moments_tet(c));
    h!(v, "P12", "area_quad", Quick, "area of an arbitrary convex quad", |c| area_quad(c));
    h!(v, "P12", "assembler", Quick, "integral assembler on two arbitrary triangles with different rules", |c| assembler(c));
    h!(v, "P12", "assembler_info", Quick, "what assemblers report; degenerate elements among regular ones", |c| assembler_info(c));
    h!(v, "P12", "builder", Quick, "wrong numbers of values are rejected", |c| builder(c));
    h!(v, "P12", "volume_assembler", Quick, "gradient integral assembler on two arbitrary triangles", |c| volume_assembler(c));
    v
}
