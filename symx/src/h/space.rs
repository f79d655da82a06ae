//! P23 (finite element spaces, interpolation, closest element) and P29 (error estimates).
use super::fe::*;
use super::util::*;
use crate::h;
use fenris::allocators::{BiDimAllocator, DimAllocator};
use fenris::assembly::local::{GeneralQuadratureTable, UniformQuadratureTable};
use fenris::connectivity::*;
use fenris::element::*;
use fenris::error::*;
use fenris::integrate::IntegrationWorkspace;
use fenris::mesh::Mesh;
use fenris::space::*;
use fenris::SmallDim;
use fenris_geometry::AxisAlignedBoundingBox;
use fenris_nested_vec::NestedVec;
use std::marker::PhantomData;

const B: f64 = 4.0;

fn konst<T: Real>(x: T) -> f64 {
    try_convert(x).expect("a constant")
}
fn vars<T: Real, C: Cx<T>>(c: &mut C, s: &str, n: usize) -> DVector<T> {
    DVector::from_iterator(n, (0..n).map(|i| c.var(&format!("{s}{i}"), -B, B)))
}

// ---------------------------------------------------------------- meshes as spaces

/// A mesh, seen as a space, answers for element k with the basis, map and Jacobian of the element spanned by cell k.
macro_rules! views {
    ($($n:ident $conn:ident $e:ident $d:ident $r:ident $k:expr;)*) => {$(
fn $n<T: Real, C: Cx<T>>(c: &mut C) {
    let m = $k + 1;
    let v: Vec<OPoint<T, $d>> = (0..m).map(|i| ptn::<T, $d, C>(c, &format!("v{i}"), B)).collect();
    // the second cell uses the vertices in another order
    let rot = 1 + c.choose("rotation", 2);
    let ids = [std::array::from_fn::<usize, $k, _>(|i| i), std::array::from_fn::<usize, $k, _>(|i| ($k * rot - i) % m)];
    let mesh = Mesh::<T, $d, $conn>::from_vertices_and_connectivity(v.clone(), ids.iter().map(|i| $conn(*i)).collect());
    let xi = ptn::<T, $r, C>(c, "xi", 1.0);
    c.holds("element count", mesh.num_elements() == 2);
    c.holds("node count", mesh.num_nodes() == m);
    for (k, ids) in ids.iter().enumerate() {
        let n = mesh.element_node_count(k);
        c.holds("element node count", n == $k);
        let mut nodes = vec![usize::MAX; n];
        mesh.populate_element_nodes(&mut nodes, k);
        c.holds("element nodes", nodes == ids);
        let e = $e::from_vertices(ids.map(|i| v[i]));
        let (phi, g) = (basis_of(&e, &xi), grads_of(&e, &xi));
        let w = ElementInSpace::from_space_and_element_index(&mesh, k);
        let mut b = vec![T::zero(); n];
        mesh.populate_element_basis(k, &mut b, &xi);
        same_slice(c, "basis", &b, &phi);
        same_slice(c, "basis of the element in the space", &basis_of(&w, &xi), &phi);
        let mut b = OMatrix::<T, $r, Dyn>::zeros(n);
        mesh.populate_element_gradients(k, MatrixViewMut::from(&mut b), &xi);
        same_slice(c, "gradients", b.as_slice(), g.as_slice());
        same_slice(c, "gradients of the element in the space", grads_of(&w, &xi).as_slice(), g.as_slice());
        let x = mesh.map_element_reference_coords(k, &xi);
        let (y, z) = (w.map_reference_coords(&xi), e.map_reference_coords(&xi));
        for i in 0..$d::dim() {
            c.eq("reference map", x[i], z[i]);
            c.eq("reference map of the element in the space", y[i], z[i]);
        }
        let (x, y, z) = (mesh.element_reference_jacobian(k, &xi), w.reference_jacobian(&xi), e.reference_jacobian(&xi));
        for i in 0..$d::dim() {
            for j in 0..$r::dim() {
                c.eq("Jacobian", x[(i, j)], z[(i, j)]);
                c.eq("Jacobian of the element in the space", y[(i, j)], z[(i, j)]);
            }
        }
    }
}
    )*};
}
views! {
    view_seg Segment2d2Connectivity Segment2d2Element U2 U1 2;
    view_tri3 Tri3d2Connectivity Tri3d2Element U2 U2 3;
    view_tri3d3 Tri3d3Connectivity Tri3d3Element U3 U2 3;
    view_tri6 Tri6d2Connectivity Tri6d2Element U2 U2 6;
    view_quad4 Quad4d2Connectivity Quad4d2Element U2 U2 4;
    view_quad9 Quad9d2Connectivity Quad9d2Element U2 U2 9;
    view_tet4 Tet4Connectivity Tet4Element U3 U3 4;
    view_tet10 Tet10Connectivity Tet10Element U3 U3 10;
    view_hex8 Hex8Connectivity Hex8Element U3 U3 8;
    view_hex20 Hex20Connectivity Hex20Element U3 U3 20;
    view_hex27 Hex27Connectivity Hex27Element U3 U3 27;
}

// ---------------------------------------------------------------- interpolation

enum El<T: Real> {
    Tri3(Tri3d2Element<T>),
    Quad4(Quad4d2Element<T>),
    Tri6(Tri6d2Element<T>),
}
macro_rules! each {
    ($s:expr, $e:ident => $x:expr) => {
        match $s {
            El::Tri3($e) => $x,
            El::Quad4($e) => $x,
            El::Tri6($e) => $x,
        }
    };
}
/// A space of different elements, in which the closest element to the k-th query point is whatever it is.
struct Mixed<T: Real> {
    els: Vec<(El<T>, Vec<usize>)>,
    nodes: usize,
    found: Vec<Option<(usize, Point2<T>)>>,
}
impl<T: Real> FiniteElementConnectivity for Mixed<T> {
    fn num_elements(&self) -> usize {
        self.els.len()
    }
    fn num_nodes(&self) -> usize {
        self.nodes
    }
    fn element_node_count(&self, k: usize) -> usize {
        self.els[k].1.len()
    }
    fn populate_element_nodes(&self, nodes: &mut [usize], k: usize) {
        nodes.copy_from_slice(&self.els[k].1)
    }
}
impl<T: Real> FiniteElementSpace<T> for Mixed<T> {
    type GeometryDim = U2;
    type ReferenceDim = U2;
    fn populate_element_basis(&self, k: usize, v: &mut [T], xi: &Point2<T>) {
        each!(&self.els[k].0, e => e.populate_basis(v, xi))
    }
    fn populate_element_gradients(&self, k: usize, g: MatrixViewMut<T, U2, Dyn>, xi: &Point2<T>) {
        each!(&self.els[k].0, e => e.populate_basis_gradients(g, xi))
    }
    fn element_reference_jacobian(&self, k: usize, xi: &Point2<T>) -> Matrix2<T> {
        each!(&self.els[k].0, e => e.reference_jacobian(xi))
    }
    fn map_element_reference_coords(&self, k: usize, xi: &Point2<T>) -> Point2<T> {
        each!(&self.els[k].0, e => e.map_reference_coords(xi))
    }
    fn diameter(&self, k: usize) -> T {
        each!(&self.els[k].0, e => e.diameter())
    }
}
impl<T: Real> FindClosestElement<T> for Mixed<T> {
    fn find_closest_element_and_reference_coords(&self, p: &Point2<T>) -> Option<(usize, Point2<T>)> {
        self.found[konst(p.x) as usize].clone()
    }
}
fn mixed<T: Real, C: Cx<T>>(c: &mut C, points: usize, with_tri6: bool) -> (Mixed<T>, Vec<Point2<T>>) {
    let mut els = vec![
        (El::Tri3(Tri3d2Element::mk(c, "t", B)), vec![2, 0, 4]),
        (El::Quad4(Quad4d2Element::mk(c, "q", B)), vec![1, 4, 3, 0]),
    ];
    if with_tri6 {
        els[1] = (El::Tri6(Tri6d2Element::mk(c, "s", B)), vec![5, 1, 4, 0, 3, 2]);
    }
    let mut sp = Mixed { els, nodes: if with_tri6 { 6 } else { 5 }, found: vec![] };
    for k in 0..points {
        let e = c.choose(&format!("element {k}"), 2);
        let xi = pt2(c, &format!("xi{k}"), 1.0);
        let j = sp.element_reference_jacobian(e, &xi);
        c.assume_ne(j[(0, 0)] * j[(1, 1)] - j[(0, 1)] * j[(1, 0)], T::zero());
        sp.found.push(Some((e, xi)));
    }
    let p = (0..points).map(|k| Point2::new(c.int(k as i64), T::zero())).collect();
    (sp, p)
}
/// Value and (Jacobian-transformed) gradient of the interpolation, at every point.
fn check_interpolation<T: Real, S: SmallDim, C: Cx<T>>(
    c: &mut C,
    who: &str,
    sp: &Mixed<T>,
    u: &DVector<T>,
    vals: Option<&[OVector<T, S>]>,
    grads: Option<&[OMatrix<T, U2, S>]>,
) where
    DefaultAllocator: BiDimAllocator<T, U2, S>,
{
    let s = S::dim();
    if let Some(v) = vals {
        c.holds(&format!("{who}: one value per point"), v.len() == sp.found.len());
    }
    if let Some(v) = grads {
        c.holds(&format!("{who}: one gradient per point"), v.len() == sp.found.len());
    }
    for (k, f) in sp.found.iter().enumerate() {
        let Some((e, xi)) = f else { continue };
        let ids = &sp.els[*e].1;
        let n = ids.len();
        if let Some(v) = vals {
            let mut phi = vec![T::zero(); n];
            sp.populate_element_basis(*e, &mut phi, xi);
            for i in 0..s {
                let want = (0..n).fold(T::zero(), |t, a| t + phi[a] * u[s * ids[a] + i]);
                c.eq(&format!("{who}: value"), v[k][i], want);
            }
        }
        if let Some(v) = grads {
            let mut g = OMatrix::<T, U2, Dyn>::zeros(n);
            sp.populate_element_gradients(*e, MatrixViewMut::from(&mut g), xi);
            let j = sp.element_reference_jacobian(*e, xi);
            for i in 0..s {
                for a in 0..2 {
                    let l = j[(0, a)] * v[k][(0, i)] + j[(1, a)] * v[k][(1, i)];
                    let r = (0..n).fold(T::zero(), |t, b| t + g[(a, b)] * u[s * ids[b] + i]);
                    c.eq(&format!("{who}: gradient"), l, r);
                }
            }
        }
    }
}
macro_rules! interpolations {
    ($($s:ident $interp:ident $fixed:ident;)*) => {$(
fn $interp<T: Real, C: Cx<T>>(c: &mut C, points: usize, tri6: bool) {
    let (sp, p) = mixed(c, points, tri6);
    let u = vars(c, "u", <$s>::dim() * sp.nodes);
    let mut v = vec![OVector::<T, $s>::repeat(c.int(7)); points];
    interpolate_at_points(&sp, &p, DVectorView::from(&u), &mut v);
    let mut g = vec![OMatrix::<T, U2, $s>::repeat(c.int(7)); points];
    interpolate_gradient_at_points(&sp, &p, DVectorView::from(&u), &mut g);
    check_interpolation(c, "interpolation", &sp, &u, Some(&v), Some(&g));
}
fn $fixed<T: Real, C: Cx<T>>(c: &mut C, points: usize, tri6: bool) {
    let (sp, p) = mixed(c, points, tri6);
    let u = vars(c, "u", <$s>::dim() * sp.nodes);
    use ValuesOrGradients::*;
    let what = [Both, OnlyValues, OnlyGradients][c.choose("what", 3)];
    let f = if c.choose("parallel", 2) == 0 {
        FixedInterpolator::from_space_and_points(&sp, &p, what)
    } else {
        FixedInterpolator::from_space_and_points_par(&sp, &p, what)
    };
    let v = what.compute_values().then(|| f.interpolate::<$s>(&u));
    let g = what.compute_gradients().then(|| f.interpolate_gradients::<U2, $s>(&u));
    check_interpolation(c, "fixed interpolation", &sp, &u, v.as_deref(), g.as_deref());
    // the results overwrite whatever the buffers hold, and the interpolator can be used again with other values
    let w = u.map(|x| x + T::one());
    if what.compute_values() {
        let mut v = vec![OVector::<T, $s>::repeat(c.int(7)); points];
        f.interpolate_into(&mut v, &w);
        check_interpolation(c, "second use", &sp, &w, Some(&v), None);
    }
    if what.compute_gradients() {
        let mut g = vec![OMatrix::<T, U2, $s>::repeat(c.int(7)); points];
        f.interpolate_gradients_into(&mut g, &w);
        check_interpolation(c, "second use", &sp, &w, None, Some(&g));
    }
}
    )*};
}
interpolations! {
    U1 interpolation1 fixed1;
    U2 interpolation2 fixed2;
    U3 interpolation3 fixed3;
}
/// Without elements, everything interpolates to zero.
fn no_elements<T: Real, C: Cx<T>>(c: &mut C) {
    let k = c.choose("points", 4);
    let sp = Mixed { els: vec![], nodes: 3, found: vec![None; k] };
    let p: Vec<_> = (0..k).map(|k| Point2::new(c.int(k as i64), T::zero())).collect();
    let u = vars(c, "u", 6);
    let mut v = vec![Vector2::repeat(c.int(7)); k];
    interpolate_at_points(&sp, &p, DVectorView::from(&u), &mut v);
    let mut h = vec![Matrix2::repeat(c.int(7)); k];
    interpolate_gradient_at_points(&sp, &p, DVectorView::from(&u), &mut h);
    for x in h.iter().flat_map(|h| h.iter()) {
        c.eq("zero gradient", *x, T::zero());
    }
    let f = if c.choose("parallel", 2) == 0 {
        FixedInterpolator::from_space_and_points(&sp, &p, ValuesOrGradients::Both)
    } else {
        FixedInterpolator::from_space_and_points_par(&sp, &p, ValuesOrGradients::Both)
    };
    let w = f.interpolate::<U2>(&u);
    let g = f.interpolate_gradients::<U2, U2>(&u);
    c.holds("one result per point", w.len() == k && g.len() == k);
    for x in v.iter().chain(&w).flat_map(|v| v.iter()).chain(g.iter().flat_map(|g| g.iter())) {
        c.eq("zero", *x, T::zero());
    }
}
/// Arbitrary compressed values: point i sums over its own range of nodes.
fn compressed<T: Real, D: SmallDim, S: SmallDim, C: Cx<T>>(c: &mut C)
where
    DefaultAllocator: BiDimAllocator<T, D, S>,
{
    let (d, s) = (D::dim(), S::dim());
    let offsets: Vec<usize> = [vec![0, 2, 2, 3], vec![0, 0, 1, 3], vec![0, 3], vec![0], vec![0, 1, 2, 3]][c.choose("offsets", 5)].clone();
    let m = *offsets.last().unwrap();
    let nodes: Vec<usize> = (0..m).map(|i| [[1, 0, 2], [2, 2, 0]][0][i]).map(|i| i).collect();
    let nodes = if c.choose("nodes", 2) == 0 { nodes } else { (0..m).map(|i| [2, 2, 0][i]).collect() };
    let vals = vars(c, "n", m).as_slice().to_vec();
    let grads = vars(c, "g", d * m).as_slice().to_vec();
    let u = vars(c, "u", 3 * s);
    let f = FixedInterpolator::from_compressed_values(Some(vals.clone()), Some(grads.clone()), nodes.clone(), offsets.clone());
    let (v, g) = (f.interpolate::<S>(&u), f.interpolate_gradients::<D, S>(&u));
    c.holds("one result per point", v.len() == offsets.len() - 1 && g.len() == v.len());
    for i in 0..v.len() {
        let r = offsets[i]..offsets[i + 1];
        for k in 0..s {
            let want = r.clone().fold(T::zero(), |t, j| t + vals[j] * u[s * nodes[j] + k]);
            c.eq("value", v[i][k], want);
            for a in 0..d {
                let want = r.clone().fold(T::zero(), |t, j| t + grads[d * j + a] * u[s * nodes[j] + k]);
                c.eq("gradient", g[i][(a, k)], want);
            }
        }
    }
}

// ---------------------------------------------------------------- closest element

/// Elements about which only their bounding boxes are known: the closest point of each to the query is any point of its
/// box, or the element contains the query.
#[derive(Clone)]
struct Boxes<T: Real, D: SmallDim>
where
    DefaultAllocator: DimAllocator<T, D>,
{
    boxes: Vec<AxisAlignedBoundingBox<T, D>>,
    closest: Vec<(bool, OPoint<T, D>)>,
    marker: PhantomData<T>,
}
impl<T: Real, D: SmallDim> FiniteElementConnectivity for Boxes<T, D>
where
    DefaultAllocator: DimAllocator<T, D>,
{
    fn num_elements(&self) -> usize {
        self.boxes.len()
    }
    fn num_nodes(&self) -> usize {
        0
    }
    fn element_node_count(&self, _: usize) -> usize {
        0
    }
    fn populate_element_nodes(&self, _: &mut [usize], _: usize) {}
}
impl<T: Real, D: SmallDim> FiniteElementSpace<T> for Boxes<T, D>
where
    DefaultAllocator: BiDimAllocator<T, D, D>,
{
    type GeometryDim = D;
    type ReferenceDim = D;
    fn populate_element_basis(&self, _: usize, _: &mut [T], _: &OPoint<T, D>) {}
    fn populate_element_gradients(&self, _: usize, _: MatrixViewMut<T, D, Dyn>, _: &OPoint<T, D>) {}
    fn element_reference_jacobian(&self, _: usize, _: &OPoint<T, D>) -> OMatrix<T, D, D> {
        OMatrix::<T, D, D>::from_fn(|i, j| if i == j { T::one() } else { T::zero() })
    }
    // reference coordinates are offset by the element index, so that the wrong element is noticed
    fn map_element_reference_coords(&self, k: usize, xi: &OPoint<T, D>) -> OPoint<T, D> {
        xi.map(|x| x - T::from_usize(k).unwrap())
    }
    fn diameter(&self, _: usize) -> T {
        T::one()
    }
}
impl<T: Real, D: SmallDim> BoundsForElementInSpace<T> for Boxes<T, D>
where
    DefaultAllocator: BiDimAllocator<T, D, D>,
{
    fn bounds_for_element(&self, k: usize) -> AxisAlignedBoundingBox<T, D> {
        self.boxes[k].clone()
    }
}
impl<T: Real, D: SmallDim> ClosestPointInElementInSpace<T> for Boxes<T, D>
where
    DefaultAllocator: BiDimAllocator<T, D, D>,
{
    fn closest_point_in_element(&self, k: usize, _: &OPoint<T, D>) -> ClosestPoint<T, D> {
        let (inside, y) = &self.closest[k];
        let xi = y.map(|x| x + T::from_usize(k).unwrap());
        if *inside {
            ClosestPoint::InElement(xi)
        } else {
            ClosestPoint::ClosestPoint(xi)
        }
    }
}
fn closest<T: Real, D: SmallDim, C: Cx<T>>(c: &mut C, n: usize, pool: &[(&[f64], &[f64])], queries: &[&[f64]])
where
    DefaultAllocator: BiDimAllocator<T, D, D> + BiDimAllocator<f64, D, D>,
{
    let q = queries[c.choose("query", queries.len())];
    let mut boxes = vec![];
    let mut closest = vec![];
    let mut first = 0;
    for k in 0..n {
        // in increasing order of the pool, or not
        let i = first + c.choose(&format!("box {k}"), pool.len() - first);
        if n > 3 {
            first = i;
        }
        let (lo, hi) = pool[i];
        let contains = (0..D::dim()).all(|a| lo[a] <= q[a] && q[a] <= hi[a]);
        let inside = contains && c.choose(&format!("inside {k}"), 2) == 1;
        let mut y = OPoint::<T, D>::origin();
        for a in 0..D::dim() {
            y[a] = if inside { c.lit(q[a]) } else { c.var(&format!("y{k}_{i}_{a}"), lo[a], hi[a]) };
        }
        boxes.push(AxisAlignedBoundingBox::new(
            OPoint::from(OVector::<T, D>::from_fn(|a, _| c.lit(lo[a]))),
            OPoint::from(OVector::<T, D>::from_fn(|a, _| c.lit(hi[a]))),
        ));
        closest.push((inside, y));
    }
    let p = OPoint::from(OVector::<T, D>::from_fn(|a, _| c.lit(q[a])));
    let sp = SpatiallyIndexed::from_space(Boxes { boxes, closest: closest.clone(), marker: PhantomData });
    c.holds("as many elements", sp.num_elements() == n);
    let r = sp.find_closest_element_and_reference_coords(&p);
    match r {
        None => c.holds("nothing is found only without elements", n == 0),
        Some((k, xi)) => {
            c.holds("element index", k < n);
            let x = xi.map(|x| x - T::from_usize(k).unwrap());
            for a in 0..D::dim() {
                c.eq("reference coordinates of the closest point in the element", x[a], closest[k].1[a]);
            }
            if closest[k].0 {
                return;
            }
            let d2 = |y: &OPoint<T, D>| (y - &p).norm_squared();
            for (inside, y) in &closest {
                c.holds("an element containing the point is preferred", !*inside);
                c.le("no element is closer", d2(&x), d2(y));
            }
        }
    }
}
const PLANE: [(&[f64], &[f64]); 6] = [
    (&[0.0, 0.0], &[1.0, 1.0]),
    (&[1.0, 0.0], &[2.0, 1.0]),
    (&[-3.0, -0.5], &[-1.0, 3.0]),
    (&[-4.0, -4.0], &[4.0, 4.0]),
    (&[0.5, 2.0], &[0.75, 5.0]),
    (&[0.0, 1.0], &[0.0, 2.0]),
];
/// Large elements with the queries on their boundary, next to small ones.
const TOUCHING: [(&[f64], &[f64]); 3] = [
    (&[-4.0, -4.0], &[4.0, 4.0]),
    (&[4.0078125, 0.0], &[4.015625, 0.0078125]),
    (&[4.0, 4.0078125], &[4.0078125, 4.015625]),
];
const SPACE: [(&[f64], &[f64]); 4] = [
    (&[0.0, 0.0, 0.0], &[1.0, 1.0, 1.0]),
    (&[1.0, 0.0, -1.0], &[2.0, 1.0, 3.0]),
    (&[-3.0, -0.5, 0.0], &[-1.0, 3.0, 0.5]),
    (&[-4.0, -4.0, -4.0], &[4.0, 4.0, 4.0]),
];
/// More elements than fit into one node of the search tree.
fn closest_many<T: Real, C: Cx<T>>(c: &mut C) {
    let (lo, hi): (Vec<[f64; 2]>, Vec<[f64; 2]>) = (0..12)
        .map(|i| {
            let (x, y) = ((i % 4) as f64, (i / 4) as f64);
            ([x, y], [x + 1.0, y + 1.0])
        })
        .unzip();
    let pool: Vec<(&[f64], &[f64])> = lo.iter().zip(&hi).map(|(a, b)| (&a[..], &b[..])).collect();
    let queries: [&[f64]; 6] = [&[0.5, 0.5], &[2.0, 1.0], &[-1.0, -1.0], &[1.75, 1.25], &[6.0, 1.5], &[2.5, 4.0]];
    let q = queries[c.choose("query", 6)];
    // every element contains the query or not, if its box does; the others are points of their boxes
    let mut boxes = vec![];
    let mut closest = vec![];
    let free = [c.choose("free", 12), c.choose("other", 12)];
    for (k, (lo, hi)) in pool.iter().enumerate() {
        let mut y = Point2::origin();
        for a in 0..2 {
            // all but two elements fill their boxes
            y[a] = if free.contains(&k) { c.var(&format!("y{k}{a}"), lo[a], hi[a]) } else { c.lit(q[a].clamp(lo[a], hi[a])) };
        }
        let inside = !free.contains(&k) && (0..2).all(|a| lo[a] <= q[a] && q[a] <= hi[a]);
        boxes.push(AxisAlignedBoundingBox::new(
            Point2::new(c.lit(lo[0]), c.lit(lo[1])),
            Point2::new(c.lit(hi[0]), c.lit(hi[1])),
        ));
        closest.push((inside, y));
    }
    let p = Point2::new(c.lit(q[0]), c.lit(q[1]));
    let sp = SpatiallyIndexed::from_space(Boxes { boxes, closest: closest.clone(), marker: PhantomData });
    match sp.find_closest_element_and_reference_coords(&p) {
        None => c.holds("an element is found", false),
        Some((k, xi)) => {
            let x = xi.map(|x| x - T::from_usize(k).unwrap());
            same(c, "reference coordinates of the closest point in the element", &x.coords, &closest[k].1.coords);
            let d2 = |y: &Point2<T>| (y - p).norm_squared();
            if !closest[k].0 {
                for (inside, y) in &closest {
                    c.holds("an element containing the point is preferred", !*inside);
                    c.le("no element is closer", d2(&x), d2(y));
                }
            }
        }
    }
}

/// Sizes and bounding boxes of the elements of a mesh.
fn geometry<T: Real, C: Cx<T>>(c: &mut C) {
    let v: Vec<Point2<T>> = (0..4).map(|i| pt2(c, &format!("v{i}"), B)).collect();
    let ids = [[0, 1, 2], [3, 2, 1]];
    let mesh = Mesh::<T, U2, Tri3d2Connectivity>::from_vertices_and_connectivity(v.clone(), ids.iter().map(|i| Tri3d2Connectivity(*i)).collect());
    let k = c.choose("element", 2);
    let x = ids[k].map(|i| v[i]);
    let want = Tri3d2Element::from_vertices(x).diameter();
    c.eq("diameter", mesh.diameter(k), want);
    c.eq("diameter of the element in the space", ElementInSpace::from_space_and_element_index(&mesh, k).diameter(), want);
}
fn bounds<T: Real, C: Cx<T>>(c: &mut C) {
    // one free vertex
    let mut v = [(0, 0), (3, 1), (1, 2), (2, -1)].map(|(x, y)| Point2::new(c.int(x), c.int(y)));
    v[1] = pt2(c, "p", B);
    let ids = [[0, 1, 2], [3, 2, 1], [0, 2, 3]];
    let mesh = Mesh::<T, U2, Tri3d2Connectivity>::from_vertices_and_connectivity(v.to_vec(), ids.iter().map(|i| Tri3d2Connectivity(*i)).collect());
    let mut all = vec![AxisAlignedBoundingBox::new(Point2::new(c.int(-9), c.int(-9)), Point2::new(c.int(9), c.int(9))); 3];
    mesh.populate_bounds_for_all_elements(&mut all);
    let listed = mesh.bounds_for_all_elements();
    c.holds("one box per element", listed.len() == 3);
    for k in 0..3 {
        let x = ids[k].map(|i| v[i]);
        for b in [&mesh.bounds_for_element(k), &all[k], &listed[k]] {
            for i in 0..2 {
                let (lo, hi) = x.iter().fold((x[0][i], x[0][i]), |(l, h), p| (l.min(p[i]), h.max(p[i])));
                c.eq("lower bound", b.min()[i], lo);
                c.eq("upper bound", b.max()[i], hi);
            }
        }
    }
}
/// A spatial index answers like the space it holds.
fn indexed<T: Real, C: Cx<T>>(c: &mut C) {
    let m = fenris::mesh::procedural::create_unit_square_uniform_tri_mesh_2d::<T>(1);
    let sp = SpatiallyIndexed::from_space(m.clone());
    c.holds("sizes", sp.num_elements() == m.num_elements() && sp.num_nodes() == m.num_nodes() && sp.space().vertices() == m.vertices());
    let k = c.choose("element", 2);
    let n = m.element_node_count(k);
    c.holds("node count", sp.element_node_count(k) == n);
    let (mut a, mut b) = (vec![9; n], vec![8; n]);
    sp.populate_element_nodes(&mut a, k);
    m.populate_element_nodes(&mut b, k);
    c.holds("nodes", a == b);
    let xi = pt2(c, "xi", 1.0);
    let (mut a, mut b) = (vec![T::zero(); n], vec![T::zero(); n]);
    sp.populate_element_basis(k, &mut a, &xi);
    m.populate_element_basis(k, &mut b, &xi);
    same_slice(c, "basis", &a, &b);
    let (mut a, mut b) = (OMatrix::<T, U2, Dyn>::zeros(n), OMatrix::<T, U2, Dyn>::zeros(n));
    sp.populate_element_gradients(k, MatrixViewMut::from(&mut a), &xi);
    m.populate_element_gradients(k, MatrixViewMut::from(&mut b), &xi);
    same_slice(c, "gradients", a.as_slice(), b.as_slice());
    same_slice(c, "Jacobian", sp.element_reference_jacobian(k, &xi).as_slice(), m.element_reference_jacobian(k, &xi).as_slice());
    same(c, "map", &sp.map_element_reference_coords(k, &xi).coords, &m.map_element_reference_coords(k, &xi).coords);
    c.eq("diameter", sp.diameter(k), m.diameter(k));
    let (a, b) = (sp.bounds_for_element(k), m.bounds_for_element(k));
    same(c, "box", &a.min().coords, &b.min().coords);
    same(c, "box", &a.max().coords, &b.max().coords);
    let p = pt2(c, "p", B);
    match (sp.closest_point_in_element(k, &p), m.closest_point_in_element(k, &p)) {
        (ClosestPoint::InElement(a), ClosestPoint::InElement(b)) | (ClosestPoint::ClosestPoint(a), ClosestPoint::ClosestPoint(b)) => {
            same(c, "closest point", &a.coords, &b.coords)
        }
        _ => c.holds("same kind of answer", false),
    }
}

/// A concrete mesh with arbitrary weights: affine functions are reproduced inside, and at the closest point outside.
fn affine<T: Real, C: Cx<T>>(c: &mut C) {
    let m = fenris::mesh::procedural::create_unit_square_uniform_tri_mesh_2d::<T>(2);
    let sp = SpatiallyIndexed::from_space(m.clone());
    let f = |c: &C, v: [(i64, i64); 2]| Point2::new(c.frac(v[0].0, v[0].1), c.frac(v[1].0, v[1].1));
    let qs = [
        ([(1, 8), (5, 8)], [(1, 8), (5, 8)]),
        ([(7, 8), (3, 8)], [(7, 8), (3, 8)]),
        ([(1, 2), (1, 2)], [(1, 2), (1, 2)]),
        ([(3, 2), (1, 8)], [(1, 1), (1, 8)]),
        ([(-2, 1), (3, 1)], [(0, 1), (1, 1)]),
        ([(5, 8), (9, 1)], [(5, 8), (1, 1)]),
    ];
    let mut ps = vec![];
    let mut want = vec![];
    for k in 0..2 {
        let (p, w) = qs[c.choose(&format!("point {k}"), qs.len())];
        ps.push(f(c, p));
        want.push(f(c, w));
    }
    let (a, b) = ([vec2(c, "a", B), vec2(c, "b", B)], vec2(c, "k", B));
    let at = |x: &Point2<T>| Vector2::new(a[0].dot(&x.coords) + b[0], a[1].dot(&x.coords) + b[1]);
    let u = DVector::from_iterator(2 * m.vertices().len(), m.vertices().iter().flat_map(|v| at(v).as_slice().to_vec()));
    let v: Vec<Vector2<T>> = sp.interpolate_at_points(&ps, DVectorView::from(&u));
    let g: Vec<Matrix2<T>> = sp.interpolate_gradient_at_points(&ps, DVectorView::from(&u));
    c.holds("one result per point", v.len() == 2 && g.len() == 2);
    let f = SpaceInterpolationFn(&sp, DVectorView::from(&u));
    for k in 0..2 {
        same(c, "value", &v[k], &at(&want[k]));
        let one: Vector2<T> = sp.interpolate_at_point(&ps[k], DVectorView::from(&u));
        same(c, "value at a single point", &one, &at(&want[k]));
        let s: Vector2<T> = f.evaluate(&ps[k]);
        same(c, "value of the solution function", &s, &at(&want[k]));
        let one: Matrix2<T> = sp.interpolate_gradient_at_point(&ps[k], DVectorView::from(&u));
        let s: Matrix2<T> = f.evaluate_grad(&ps[k]);
        for i in 0..2 {
            for j in 0..2 {
                c.eq("gradient", g[k][(i, j)], a[j][i]);
                c.eq("gradient at a single point", one[(i, j)], a[j][i]);
                c.eq("gradient of the solution function", s[(i, j)], a[j][i]);
            }
        }
    }
    let fi = FixedInterpolator::from_space_and_points(&sp, &ps, ValuesOrGradients::Both);
    for (x, y) in fi.interpolate::<U2>(&u).iter().zip(&v) {
        same(c, "fixed interpolation agrees", x, y);
    }
}

// ---------------------------------------------------------------- P29

/// The reference solution (components n..n + s of values, or the entries of a gradient): k_i + q_i (x_0 + 3 x_last).
#[derive(Clone)]
struct Poly<T: Real> {
    k: Vec<T>,
    q: Vec<T>,
}
impl<T: Real> Poly<T> {
    fn new<C: Cx<T>>(c: &mut C, n: usize) -> Self {
        Poly { k: vars(c, "pk", n).as_slice().to_vec(), q: vars(c, "pq", n).as_slice().to_vec() }
    }
    fn at(&self, i: usize, x: &[T]) -> T {
        self.k[i] + self.q[i] * (x[0] + T::from_f64(3.0).unwrap() * x[x.len() - 1])
    }
    fn grad(&self, i: usize, j: usize, x: &[T]) -> T {
        self.at(i * x.len() + j, x)
    }
}
fn l2<T: Real, E: VolumetricFiniteElement<T>, S: SmallDim>(e: &E, u: &DVector<T>, w: &[T], p: &[OPoint<T, E::ReferenceDim>], f: &Poly<T>) -> T
where
    DefaultAllocator: BiDimAllocator<T, E::GeometryDim, E::ReferenceDim>,
{
    let s = S::dim();
    let mut sum = T::zero();
    for (w, xi) in w.iter().zip(p) {
        let (x, phi) = (e.map_reference_coords(xi), basis_of(e, xi));
        let vol = det(&dmat(&e.reference_jacobian(xi))).abs();
        for i in 0..s {
            let uh = (0..phi.len()).fold(T::zero(), |t, a| t + phi[a] * u[s * a + i]);
            let r = uh - f.at(i, x.coords.as_slice());
            sum += *w * vol * r * r;
        }
    }
    sum
}
fn h1<T: Real, E: VolumetricFiniteElement<T>, S: SmallDim>(e: &E, u: &DVector<T>, w: &[T], p: &[OPoint<T, E::ReferenceDim>], f: &Poly<T>) -> T
where
    DefaultAllocator: BiDimAllocator<T, E::GeometryDim, E::ReferenceDim>,
{
    let (s, d) = (S::dim(), E::GeometryDim::dim());
    let mut sum = T::zero();
    for (w, xi) in w.iter().zip(p) {
        let (x, g) = (e.map_reference_coords(xi), grads_of(e, xi));
        let j = dmat(&e.reference_jacobian(xi));
        let dj = det(&j);
        for i in 0..s {
            let r: Vec<T> = (0..d).map(|b| (0..g.ncols()).fold(T::zero(), |t, a| t + g[(b, a)] * u[s * a + i])).collect();
            for k in 0..d {
                // component k of J^-T r by Cramer's rule: column k of J^T replaced by r
                let mut m = j.transpose();
                for b in 0..d {
                    m[(b, k)] = r[b];
                }
                let y = det(&m) / dj - f.grad(i, k, x.coords.as_slice());
                sum += *w * dj.abs() * y * y;
            }
        }
    }
    sum
}
macro_rules! errors {
    ($($n:ident $e:ident $k:literal $d:ident $s:ident $p:expr;)*) => {$(
fn $n<T: Real, C: Cx<T>>(c: &mut C, grad: bool) {
    let (d, s) = ($d::dim(), $s::dim());
    let mut v = verts_of::<T, C, $d, $k>(c, "v", B);
    v[0] = OPoint::origin();
    if grad && d == 3 {
        // one vertex is arbitrary
        let free = 1 + c.choose("free", 3);
        for k in 1..4 {
            if k != free {
                v[k] = OPoint::from(OVector::<T, $d>::from_fn(|a, _| c.int([[2, 1, 0], [-1, 3, 1], [1, -2, 2]][k - 1][a])));
            }
        }
    }
    let e = $e::<T>::from_vertices(v);
    let w: Vec<T> = (0..$p).map(|i| c.var(&format!("w{i}"), 0.0, 2.0)).collect();
    // gradients at some points, values at arbitrary ones
    let p: Vec<_> = (0..$p).map(|i| if grad {
        let t = c.choose("point", 2) as i64;
        OPoint::<T, $d>::from(OVector::<T, $d>::from_fn(|a, _| c.frac((1 - 2 * t) * (a as i64 + 1 + i), 4 + t)))
    } else {
        ptn::<T, $d, C>(c, &format!("xi{i}"), 1.0)
    }).collect();
    let u = vars(c, "u", s * e.num_nodes());
    let f = Poly::new(c, s * d);
    for p in &p {
        let j = det(&dmat(&e.reference_jacobian(p)));
        if c.choose("orientation", 2) == 0 {
            c.assume_lt(T::zero(), j);
        } else {
            c.assume_lt(j, T::zero());
        }
    }
    let mut ws = IntegrationWorkspace::default();
    if grad {
        let g = |x: &OPoint<T, $d>| OMatrix::<T, $d, $s>::from_fn(|k, i| f.grad(i, k, x.coords.as_slice()));
        let want = h1::<T, _, $s>(&e, &u, &w, &p, &f);
        let got = estimate_element_H1_seminorm_error_squared(&e, &g, DVectorView::from(&u), &w, &p, &mut ws);
        c.eq("squared H1 seminorm error", got, want);
        let root = estimate_element_H1_seminorm_error(&e, &g, DVectorView::from(&u), &w, &p, &mut ws);
        c.eq("H1 seminorm error", root, got.sqrt());
    } else {
        let g = |x: &OPoint<T, $d>| OVector::<T, $s>::from_fn(|i, _| f.at(i, x.coords.as_slice()));
        let want = l2::<T, _, $s>(&e, &u, &w, &p, &f);
        let got = estimate_element_L2_error_squared(&e, &g, DVectorView::from(&u), &w, &p, &mut ws);
        c.eq("squared L2 error", got, want);
        let root = estimate_element_L2_error(&e, &g, DVectorView::from(&u), &w, &p, &mut ws);
        c.eq("L2 error", root, got.sqrt());
    }
}
    )*};
}
errors! {
    err_tri3 Tri3d2Element 3 U2 U2 2;
    err_tri3_scalar Tri3d2Element 3 U2 U1 1;
    err_quad4 Quad4d2Element 4 U2 U1 1;
    err_tri6 Tri6d2Element 6 U2 U2 1;
    err_tet4 Tet4Element 4 U3 U1 1;
    err_tet4_vector Tet4Element 4 U3 U3 1;
    err_tri3_wide Tri3d2Element 3 U2 U3 1;
    err_tri3_wider Tri3d2Element 3 U2 U5 1;
}
/// On a mesh: the sum over the elements, each with its own rule.
/// Interpolation of affine functions at many points of a larger mesh, in every way there is.
fn affine_large<T: Real, C: Cx<T>>(c: &mut C) {
    let n = 6;
    let m = fenris::mesh::procedural::create_unit_square_uniform_tri_mesh_2d::<T>(n);
    let sp = SpatiallyIndexed::from_space(m.clone());
    let count = [17, 90][c.choose("points", 2)];
    let ps: Vec<Point2<T>> = (0..count as i64).map(|k| Point2::new(c.frac((7 * k + 3) % 97, 97), c.frac((31 * k + 1) % 89, 89))).collect();
    let (a, b) = ([vec2(c, "a", B), vec2(c, "b", B)], vec2(c, "k", B));
    let at = |x: &Point2<T>| Vector2::new(a[0].dot(&x.coords) + b[0], a[1].dot(&x.coords) + b[1]);
    let u = DVector::from_iterator(2 * m.vertices().len(), m.vertices().iter().flat_map(|v| at(v).as_slice().to_vec()));
    let fi = match c.choose("way", 2) {
        0 => FixedInterpolator::from_space_and_points(&sp, &ps, ValuesOrGradients::Both),
        _ => FixedInterpolator::from_space_and_points_par(&sp, &ps, ValuesOrGradients::Both),
    };
    let v: Vec<Vector2<T>> = sp.interpolate_at_points(&ps, DVectorView::from(&u));
    let g: Vec<Matrix2<T>> = sp.interpolate_gradient_at_points(&ps, DVectorView::from(&u));
    let (fv, fg) = (fi.interpolate::<U2>(&u), fi.interpolate_gradients::<U2, U2>(&u));
    c.holds("one result per point", v.len() == count && g.len() == count && fv.len() == count && fg.len() == count);
    for k in 0..count {
        let w = at(&ps[k]);
        same(c, "value", &v[k], &w);
        same(c, "value of the fixed interpolator", &fv[k], &w);
        for i in 0..2 {
            for j in 0..2 {
                c.eq("gradient", g[k][(i, j)], a[j][i]);
                c.eq("gradient of the fixed interpolator", fg[k][(i, j)], a[j][i]);
            }
        }
    }
}
/// Errors and integrals over a larger mesh are the sums over its elements.
fn err_large<T: Real, C: Cx<T>>(c: &mut C) {
    let n = [4, 7][c.choose("resolution", 2)];
    let mesh = fenris::mesh::procedural::create_unit_square_uniform_tri_mesh_2d::<T>(n);
    let (a, b) = (vec2(c, "a", B), c.var("b", -B, B));
    let nv = mesh.vertices().len();
    // nodal values in two components without any regularity
    let u = DVector::from_fn(2 * nv, |i, _| a[i % 2] * c.int((i * i % 17) as i64) + b * c.int((i % 5) as i64));
    let (k0, k1) = (c.var("k0", -B, B), c.var("k1", -B, B));
    let h = |x: &Point2<T>| Vector2::new(k0 * x.x, k1 * x.y + k0);
    let g = |x: &Point2<T>| Matrix2::new(k0, k1 * x.x, k1, k0 * x.y);
    let p = vec![Point2::new(c.frac(-1, 2), c.frac(-1, 4)), Point2::new(c.frac(1, 8), c.frac(-3, 4))];
    let w = vec![c.frac(3, 4), c.frac(5, 4)];
    let grad = c.choose("norm", 2) == 1;
    let mut want = T::zero();
    let mut ws = IntegrationWorkspace::default();
    for k in mesh.connectivity() {
        let e = Tri3d2Element::from_vertices(k.0.map(|i| mesh.vertices()[i]));
        let ul = DVector::from_iterator(6, k.0.iter().flat_map(|i| [u[2 * i], u[2 * i + 1]]));
        let l = DVectorView::from(&ul);
        want += if grad {
            estimate_element_H1_seminorm_error_squared(&e, &g, l, &w, &p, &mut ws)
        } else {
            estimate_element_L2_error_squared(&e, &h, l, &w, &p, &mut ws)
        };
    }
    let t = UniformQuadratureTable::from_points_and_weights(p.clone(), w.clone());
    let got = if grad { estimate_H1_seminorm_error_squared(&mesh, &g, &u, &t) } else { estimate_L2_error_squared(&mesh, &h, &u, &t) };
    match got {
        Ok(x) => c.eq("squared error is the sum over the elements", x, want),
        Err(_) => c.holds("regular elements give an error estimate", false),
    }
}
fn err_mesh<T: Real, C: Cx<T>>(c: &mut C, grad: bool, uniform: bool) {
    let v = verts_of::<T, C, U2, 4>(c, "v", B).to_vec();
    let ids = [[0, 1, 2], [3, 2, 1]];
    let mesh = Mesh::<T, U2, Tri3d2Connectivity>::from_vertices_and_connectivity(v.clone(), ids.iter().map(|i| Tri3d2Connectivity(*i)).collect());
    let u = vars(c, "u", 8);
    let f = Poly::new(c, 4);
    let mut rules = vec![];
    for k in 0..2 {
        let n = if uniform { 1 } else { 2 - k };
        let w: Vec<T> = (0..n).map(|i| c.var(&format!("w{k}{i}"), 0.0, 2.0)).collect();
        let p: Vec<_> = (0..n).map(|i| pt2(c, &format!("xi{k}{i}"), 1.0)).collect();
        rules.push((w, p));
    }
    if uniform {
        rules[1] = rules[0].clone();
    }
    let g = |x: &Point2<T>| Matrix2::from_fn(|k, i| f.grad(i, k, x.coords.as_slice()));
    let h = |x: &Point2<T>| Vector2::from_fn(|i, _| f.at(i, x.coords.as_slice()));
    let mut want = T::zero();
    let mut ws = IntegrationWorkspace::default();
    for k in 0..2 {
        let e = Tri3d2Element::from_vertices(ids[k].map(|i| v[i]));
        c.assume_lt(T::zero(), (v[ids[k][1]] - v[ids[k][0]]).perp(&(v[ids[k][2]] - v[ids[k][0]])));
        let ul = DVector::from_iterator(6, ids[k].iter().flat_map(|i| [u[2 * i], u[2 * i + 1]]));
        let (w, p) = &rules[k];
        let l = DVectorView::from(&ul);
        want += if grad {
            estimate_element_H1_seminorm_error_squared(&e, &g, l, w, p, &mut ws)
        } else {
            estimate_element_L2_error_squared(&e, &h, l, w, p, &mut ws)
        };
    }
    let (a, b) = if uniform {
        let t = UniformQuadratureTable::from_points_and_weights(rules[0].1.clone(), rules[0].0.clone());
        if grad {
            (estimate_H1_seminorm_error_squared(&mesh, &g, &u, &t), estimate_H1_seminorm_error(&mesh, &g, &u, &t))
        } else {
            (estimate_L2_error_squared(&mesh, &h, &u, &t), estimate_L2_error(&mesh, &h, &u, &t))
        }
    } else {
        let (mut ps, mut ws) = (NestedVec::new(), NestedVec::new());
        for r in &rules {
            ws.push(&r.0);
            ps.push(&r.1);
        }
        let t = GeneralQuadratureTable::from_points_and_weights(ps, ws);
        if grad {
            (estimate_H1_seminorm_error_squared(&mesh, &g, &u, &t), estimate_H1_seminorm_error(&mesh, &g, &u, &t))
        } else {
            (estimate_L2_error_squared(&mesh, &h, &u, &t), estimate_L2_error(&mesh, &h, &u, &t))
        }
    };
    match (a, b) {
        (Ok(a), Ok(b)) => {
            c.eq("squared error is the sum over the elements", a, want);
            c.eq("error is the root", b, a.sqrt());
        }
        _ => c.holds("regular elements give an error estimate", false),
    }
}

pub fn list() -> Vec<Harness> {
    let mut v = vec![];
    macro_rules! views_list { ($($n:ident)*) => { $( h!(v, "P23", stringify!($n), Quick, "a mesh as a space", |c| $n(c)); )* } }
    views_list!(view_seg view_tri3 view_tri3d3 view_tri6 view_quad4 view_quad9 view_tet4 view_tet10 view_hex8 view_hex20 view_hex27);
    h!(v, "P23", "interpolation_scalar", Quick, "interpolation", |c| interpolation1(c, 2, false));
    h!(v, "P23", "interpolation_vector", Quick, "interpolation", |c| interpolation2(c, 2, true));
    h!(v, "P23", "interpolation_3", Thorough, "interpolation", |c| interpolation3(c, 3, true));
    h!(v, "P23", "fixed_scalar", Quick, "fixed interpolator", |c| fixed1(c, 2, false));
    h!(v, "P23", "fixed_vector", Quick, "fixed interpolator", |c| fixed2(c, 2, true));
    h!(v, "P23", "fixed_3", Thorough, "fixed interpolator", |c| fixed3(c, 3, true));
    h!(v, "P23", "no_elements", Quick, "spaces without elements", |c| no_elements(c));
    h!(v, "P23", "compressed_1_2", Quick, "compressed values", |c| compressed::<_, U1, U2, _>(c));
    h!(v, "P23", "compressed_2_1", Quick, "compressed values", |c| compressed::<_, U2, U1, _>(c));
    h!(v, "P23", "compressed_3_2", Quick, "compressed values", |c| compressed::<_, U3, U2, _>(c));
    h!(v, "P23", "closest_touching", Quick, "closest of 2 elements of different sizes", |c| closest::<_, U2, _>(c, 2, &TOUCHING, &[&[4.0, 0.0], &[4.0, 4.0]]));
    h!(v, "P23", "closest_none", Quick, "closest of no elements", |c| closest::<_, U2, _>(c, 0, &PLANE, &[&[1.0, 2.0]]));
    h!(v, "P23", "closest_2d", Quick, "closest of 2 elements", |c| closest::<_, U2, _>(c, 2, &PLANE, &[&[0.25, 0.25], &[1.5, 2.5], &[-6.0, 1.0], &[0.0, 1.5]]));
    h!(v, "P23", "closest_2d_3", Thorough, "closest of 3 elements", |c| closest::<_, U2, _>(c, 3, &PLANE, &[&[0.25, 0.25], &[1.5, 2.5], &[-6.0, 1.0]]));
    h!(v, "P23", "closest_3d", Quick, "closest of 2 elements", |c| closest::<_, U3, _>(c, 2, &SPACE, &[&[0.25, 0.25, 0.5], &[-2.0, 4.0, 1.0]]));
    h!(v, "P23", "closest_many", Quick, "closest of 12 elements", |c| closest_many(c));
    h!(v, "P23", "geometry", Quick, "diameters of the elements", |c| geometry(c));
    h!(v, "P23", "bounds", Quick, "boxes of the elements", |c| bounds(c));
    h!(v, "P23", "indexed", Quick, "what an indexed space answers", |c| indexed(c));
    h!(v, "P23", "affine", Quick, "affine functions", |c| affine(c));
    macro_rules! err_list { ($($n:ident $s:expr;)*) => { $(
        h!(v, "P29", concat!($s, "_l2"), Quick, "L2 error on an element", |c| $n(c, false));
        h!(v, "P29", concat!($s, "_h1"), Quick, "H1 error on an element", |c| $n(c, true));
    )* } }
    err_list! { err_tri3 "tri3"; err_tri3_scalar "tri3_scalar"; err_quad4 "quad4"; err_tri6 "tri6"; err_tet4 "tet4"; err_tet4_vector "tet4_vector"; err_tri3_wide "tri3_wide"; err_tri3_wider "tri3_wider"; }
    h!(v, "P29", "mesh_large", Quick, "errors on larger meshes", |c| err_large(c));
    h!(v, "P23", "affine_large", Quick, "affine functions at many points of a larger mesh", |c| affine_large(c));
    h!(v, "P29", "mesh_l2", Quick, "L2 error on a mesh", |c| err_mesh(c, false, false));
    h!(v, "P29", "mesh_h1", Quick, "H1 error on a mesh", |c| err_mesh(c, true, false));
    h!(v, "P29", "mesh_l2_uniform", Quick, "L2 error on a mesh", |c| err_mesh(c, false, true));
    h!(v, "P29", "mesh_h1_uniform", Quick, "H1 error on a mesh", |c| err_mesh(c, true, true));
    v
}
