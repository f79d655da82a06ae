//! P01: axis-aligned bounding box algebra.
use crate::h;
use crate::h::util::*;
use fenris_geometry::{AxisAlignedBoundingBox as Aabb, BoundedGeometry, Quad2d, SimplePolygon2d, SimplePolygon3d, Tetrahedron, Hexahedron, Triangle};
use nalgebra::allocator::Allocator;

const B: f64 = 1024.0;

fn p<T: Real, D: DimName, C: Cx<T>>(c: &mut C, n: &str) -> OPoint<T, D>
where
    DefaultAllocator: Allocator<T, D>,
{
    OPoint::from(OVector::<T, D>::from_fn(|i, _| c.var(&format!("{n}{i}"), -B, B)))
}

fn bx<T: Real, D: DimName, C: Cx<T>>(c: &mut C, n: &str) -> Aabb<T, D>
where
    DefaultAllocator: Allocator<T, D>,
{
    let a = p::<T, D, C>(c, &format!("{n}.lo"));
    let b = p::<T, D, C>(c, &format!("{n}.hi"));
    for i in 0..D::dim() {
        c.assume_le(a[i], b[i]);
    }
    Aabb::new(a, b)
}

/// A universally quantified point of the box.
/// Corners in the wrong order along any axis are refused, all others accepted.
fn refused<T: Real, D: DimName, C: Cx<T>>(c: &mut C)
where
    DefaultAllocator: Allocator<T, D>,
{
    let (a, b) = (p::<T, D, C>(c, "min"), p::<T, D, C>(c, "max"));
    let ordered = (0..D::dim()).all(|i| a[i] <= b[i]);
    let r = panics(|| {
        Aabb::new(a.clone(), b.clone());
    });
    c.holds("refused iff out of order", r == !ordered);
    let s = c.var("scale", -2.0, 2.0);
    if ordered {
        let b = Aabb::new(a, b);
        let r = panics(|| {
            b.uniformly_scale(s);
        });
        c.holds("negative scales are refused", r == (s < T::zero()));
    }
}
fn inside<T: Real, D: DimName, C: Cx<T>>(c: &mut C, b: &Aabb<T, D>, n: &str) -> OPoint<T, D>
where
    DefaultAllocator: Allocator<T, D>,
{
    let y = p::<T, D, C>(c, n);
    for i in 0..D::dim() {
        c.assume_le(b.min()[i], y[i]);
        c.assume_le(y[i], b.max()[i]);
    }
    y
}

fn is_in<T: Real, D: DimName, C: Cx<T>>(c: &mut C, what: &str, b: &Aabb<T, D>, y: &OPoint<T, D>)
where
    DefaultAllocator: Allocator<T, D>,
{
    for i in 0..D::dim() {
        c.le(&format!("{what}: lower bound"), b.min()[i], y[i]);
        c.le(&format!("{what}: upper bound"), y[i], b.max()[i]);
    }
}

fn enclose<T: Real, D: DimName, C: Cx<T>>(c: &mut C)
where
    DefaultAllocator: Allocator<T, D>,
{
    let a = bx::<T, D, C>(c, "a");
    let b = bx::<T, D, C>(c, "b");
    let e = a.enclose(&b);
    let y = inside(c, &a, "y");
    is_in(c, "encloses the first box", &e, &y);
    let z = inside(c, &b, "z");
    is_in(c, "encloses the second box", &e, &z);
    // minimality: any box holding both holds the result
    let w = bx::<T, D, C>(c, "w");
    for i in 0..D::dim() {
        for q in [&a, &b] {
            c.assume_le(w.min()[i], q.min()[i]);
            c.assume_le(q.max()[i], w.max()[i]);
        }
    }
    is_in(c, "smallest enclosing box", &w, e.min());
    is_in(c, "smallest enclosing box", &w, e.max());
}

fn contains<T: Real, D: DimName, C: Cx<T>>(c: &mut C)
where
    DefaultAllocator: Allocator<T, D>,
{
    let a = bx::<T, D, C>(c, "a");
    let y = p::<T, D, C>(c, "y");
    let got = a.contains_point(&y);
    let mut want = true;
    for i in 0..D::dim() {
        want = want && !(y[i] < a.min()[i]) && !(y[i] > a.max()[i]);
    }
    c.holds("contains_point is the closed box", got == want);
}

fn intersects<T: Real, D: DimName, C: Cx<T>>(c: &mut C)
where
    DefaultAllocator: Allocator<T, D>,
{
    let a = bx::<T, D, C>(c, "a");
    let b = bx::<T, D, C>(c, "b");
    if a.intersects(&b) {
        // a common point exists
        let mut q = a.min().clone();
        for i in 0..D::dim() {
            q[i] = if b.min()[i] > a.min()[i] { b.min()[i] } else { a.min()[i] };
        }
        is_in(c, "common point in the first box", &a, &q);
        is_in(c, "common point in the second box", &b, &q);
    } else {
        // no point is in both
        let y = p::<T, D, C>(c, "y");
        let both = a.contains_point(&y) && b.contains_point(&y);
        c.holds("boxes reported disjoint share no point", !both);
    }
}

fn measures<T: Real, D: DimName, C: Cx<T>>(c: &mut C)
where
    DefaultAllocator: Allocator<T, D>,
{
    let a = bx::<T, D, C>(c, "a");
    let e = a.extents();
    let m = a.center();
    let me = a.max_extent();
    let mut hit = false;
    for i in 0..D::dim() {
        c.eq("extents", e[i], a.max()[i] - a.min()[i]);
        c.eq("center", m[i] - a.min()[i], a.max()[i] - m[i]);
        c.le("max extent bounds all", e[i], me);
        if e[i] >= me {
            hit = true;
        }
    }
    c.holds("max extent attained", hit);
    let s = c.var("s", 0.0, 64.0);
    let g = a.uniformly_scale(s);
    let gm = g.center();
    let ge = g.extents();
    for i in 0..D::dim() {
        c.eq("scaling keeps the center", gm[i], m[i]);
        c.eq("scaling scales extents", ge[i], e[i] * s);
    }
    let d = c.var("d", 0.0, 64.0);
    let g = a.grow_uniformly(d);
    for i in 0..D::dim() {
        c.eq("grow min", g.min()[i], a.min()[i] - d);
        c.eq("grow max", g.max()[i], a.max()[i] + d);
    }
    let bb = a.bounding_box();
    for i in 0..D::dim() {
        c.eq("own bounding box min", bb.min()[i], a.min()[i]);
        c.eq("own bounding box max", bb.max()[i], a.max()[i]);
    }
}

fn corners<T: Real, D: DimName, C: Cx<T>>(c: &mut C)
where
    DefaultAllocator: Allocator<T, D> + Allocator<usize, D>,
{
    let a = bx::<T, D, C>(c, "a");
    let cs: Vec<_> = a.corners_iter().collect();
    c.holds("2^d corners", cs.len() == 1 << D::dim());
    // every combination of bounds occurs exactly once: matched by value for arbitrary non-flat boxes
    for i in 0..D::dim() {
        c.assume_lt(a.min()[i], a.max()[i]);
    }
    let mut seen = vec![0; 1 << D::dim()];
    for q in &cs {
        let mut k = 0;
        for i in 0..D::dim() {
            if q[i] > a.min()[i] {
                k |= 1 << i;
                c.eq("corner on max side", q[i], a.max()[i]);
            } else {
                c.eq("corner on min side", q[i], a.min()[i]);
            }
        }
        seen[k] += 1;
    }
    c.holds("each corner once", seen.iter().all(|&s| s == 1));
}

fn closest<T: Real, D: DimName, C: Cx<T>>(c: &mut C)
where
    DefaultAllocator: Allocator<T, D> + Allocator<usize, D>,
{
    let a = bx::<T, D, C>(c, "a");
    let x = p::<T, D, C>(c, "x");
    let y = inside(c, &a, "y");
    let q = a.closest_point_to(&x);
    is_in(c, "closest point in box", &a, &q);
    // per axis: no point of the box is nearer (sums of squares are then ordered too)
    for i in 0..D::dim() {
        c.le("closest along each axis", (q[i] - x[i]) * (q[i] - x[i]), (y[i] - x[i]) * (y[i] - x[i]));
    }
    let d2 = a.dist2_to(&x);
    c.eq("dist2", d2, (&q - &x).norm_squared());
    let d = a.dist_to(&x);
    c.le("dist nonnegative", T::zero(), d);
    c.eq("dist", d * d, d2);
}

fn furthest<T: Real, D: DimName, C: Cx<T>>(c: &mut C)
where
    DefaultAllocator: Allocator<T, D> + Allocator<usize, D>,
{
    let a = bx::<T, D, C>(c, "a");
    let x = p::<T, D, C>(c, "x");
    let y = inside(c, &a, "y");
    let q = a.furthest_point_to(&x);
    is_in(c, "furthest point in box", &a, &q);
    for i in 0..D::dim() {
        c.le("furthest along each axis", (y[i] - x[i]) * (y[i] - x[i]), (q[i] - x[i]) * (q[i] - x[i]));
    }
    let d2 = a.max_dist2_to(&x);
    c.eq("max dist2", d2, (&q - &x).norm_squared());
    let d = a.max_dist_to(&x);
    c.le("max dist nonnegative", T::zero(), d);
    c.eq("max dist", d * d, d2);
}

fn tight<T: Real, D: DimName, C: Cx<T>>(c: &mut C, what: &str, b: &Aabb<T, D>, pts: &[OPoint<T, D>])
where
    DefaultAllocator: Allocator<T, D>,
{
    for i in 0..D::dim() {
        let (mut lo, mut hi) = (false, false);
        for q in pts {
            c.le(&format!("{what}: lower bound of all points"), b.min()[i], q[i]);
            c.le(&format!("{what}: upper bound of all points"), q[i], b.max()[i]);
            lo = lo || q[i] <= b.min()[i];
            hi = hi || q[i] >= b.max()[i];
        }
        c.holds(&format!("{what}: bounds attained"), lo && hi);
    }
}

fn from_points<T: Real, D: DimName, C: Cx<T>>(c: &mut C, max: usize)
where
    DefaultAllocator: Allocator<T, D>,
{
    let n = c.choose("n", max + 1);
    let pts: Vec<OPoint<T, D>> = (0..n).map(|i| p::<T, D, C>(c, &format!("p{i}_"))).collect();
    match Aabb::from_points(&pts) {
        None => c.holds("no box only for no points", n == 0),
        Some(b) => {
            c.holds("box for points", n > 0);
            tight(c, "from_points", &b, &pts)
        }
    }
}

/// As `bounded`, with the coordinates along one axis symbolic at a time (axes are treated independently by the code).
fn bounded_axis<T: Real, C: Cx<T>>(c: &mut C) {
    let k = c.choose("shape", 6);
    let dim = if [0, 2, 3].contains(&k) { 2 } else { 3 };
    let ax = c.choose("axis", dim);
    let n = if [2, 5].contains(&k) { 4 } else { 3 };
    let mut q2 = vec![Point2::origin(); 4];
    let mut q3 = vec![Point3::origin(); 4];
    for i in 0..n {
        let v = c.var(&format!("v{i}"), -1024.0, 1024.0);
        for a in 0..3 {
            let w = if a == ax { v } else { c.int([[3, -1, 4, 1], [-5, 9, 2, 6], [5, 3, -5, 8]][a][i]) };
            q3[i][a] = w;
            if a < 2 {
                q2[i][a] = w;
            }
        }
    }
    bounded_shape(c, k, &q2, &q3);
}

fn bounded<T: Real, C: Cx<T>>(c: &mut C) {
    let k = c.choose("shape", 6);
    let q2: Vec<Point2<T>> = (0..4).map(|i| p::<T, U2, C>(c, &format!("q{i}_"))).collect();
    let q3: Vec<Point3<T>> = (0..4).map(|i| p::<T, U3, C>(c, &format!("r{i}_"))).collect();
    bounded_shape(c, k, &q2, &q3);
}

fn bounded_shape<T: Real, C: Cx<T>>(c: &mut C, k: usize, q2: &[Point2<T>], q3: &[Point3<T>]) {
    match k {
        0 => tight(c, "triangle 2d", &Triangle([q2[0], q2[1], q2[2]]).bounding_box(), &q2[..3]),
        1 => tight(c, "triangle 3d", &Triangle([q3[0], q3[1], q3[2]]).bounding_box(), &q3[..3]),
        2 => tight(c, "quad", &Quad2d([q2[0], q2[1], q2[2], q2[3]]).bounding_box(), q2),
        3 => tight(c, "polygon 2d", &SimplePolygon2d::from_vertices(q2[..3].to_vec()).bounding_box(), &q2[..3]),
        4 => tight(c, "polygon 3d", &SimplePolygon3d::from_vertices(q3[..3].to_vec()).bounding_box(), &q3[..3]),
        _ => tight(c, "tetrahedron", &Tetrahedron::from_vertices([q3[0], q3[1], q3[2], q3[3]]).bounding_box(), q3),
    }
}

fn bounded_hex<T: Real, C: Cx<T>>(c: &mut C) {
    let q3: Vec<Point3<T>> = (0..8).map(|i| p::<T, U3, C>(c, &format!("r{i}_"))).collect();
    let h = Hexahedron::from_vertices([q3[0], q3[1], q3[2], q3[3], q3[4], q3[5], q3[6], q3[7]]);
    let b = h.bounding_box();
    for i in 0..3 {
        for q in &q3 {
            c.le("hexahedron: lower bound of all points", b.min()[i], q[i]);
            c.le("hexahedron: upper bound of all points", q[i], b.max()[i]);
        }
    }
}

pub fn list(v: &mut Vec<Harness>) {
    h!(v, "P01", "enclose_2d", Quick, "enclose: union bound and minimality, 2D", |c| enclose::<_, U2, _>(c));
    h!(v, "P01", "enclose_3d", Quick, "enclose: union bound and minimality, 3D", |c| enclose::<_, U3, _>(c));
    h!(v, "P01", "refused_2d", Quick, "corners out of order are refused, 2D", |c| refused::<_, U2, _>(c));
    h!(v, "P01", "refused_3d", Quick, "corners out of order are refused, 3D", |c| refused::<_, U3, _>(c));
    h!(v, "P01", "contains_2d", Quick, "contains_point, 2D", |c| contains::<_, U2, _>(c));
    h!(v, "P01", "contains_3d", Quick, "contains_point, 3D", |c| contains::<_, U3, _>(c));
    h!(v, "P01", "intersects_2d", Quick, "intersects iff a common point exists, 2D", |c| intersects::<_, U2, _>(c));
    h!(v, "P01", "intersects_3d", Quick, "intersects iff a common point exists, 3D", |c| intersects::<_, U3, _>(c));
    h!(v, "P01", "measures_1d", Quick, "extents, center, max_extent, scaling, growing, 1D", |c| measures::<_, U1, _>(c));
    h!(v, "P01", "measures_2d", Quick, "extents, center, max_extent, scaling, growing, 2D", |c| measures::<_, U2, _>(c));
    h!(v, "P01", "measures_3d", Quick, "extents, center, max_extent, scaling, growing, 3D", |c| measures::<_, U3, _>(c));
    h!(v, "P01", "corners_2d", Quick, "corners_iter, 2D", |c| corners::<_, U2, _>(c));
    h!(v, "P01", "corners_3d", Quick, "corners_iter, 3D", |c| corners::<_, U3, _>(c));
    h!(v, "P01", "closest_2d", Quick, "closest point and distance, 2D", |c| closest::<_, U2, _>(c));
    h!(v, "P01", "closest_3d", Quick, "closest point and distance, 3D", |c| closest::<_, U3, _>(c));
    h!(v, "P01", "furthest_2d", Quick, "furthest point and distance, 2D", |c| furthest::<_, U2, _>(c));
    h!(v, "P01", "furthest_3d", Quick, "furthest point and distance, 3D", |c| furthest::<_, U3, _>(c));
    h!(v, "P01", "from_points_2d", Quick, "from_points, up to 3 points, 2D", |c| from_points::<_, U2, _>(c, 3));
    h!(v, "P01", "from_points_3d", Quick, "from_points, up to 3 points, 3D", |c| from_points::<_, U3, _>(c, 3));
    h!(v, "P01", "from_points_3d_4", Thorough, "from_points, up to 4 points, 3D", |c| from_points::<_, U3, _>(c, 4));
    h!(v, "P01", "bounded_axis", Quick, "bounding_box of triangle, quad, polygon, tetrahedron, one axis at a time", |c| bounded_axis(c));
    h!(v, "P01", "bounded", Thorough, "bounding_box of triangle, quad, polygon, tetrahedron", |c| bounded(c));
    h!(v, "P01", "bounded_hex", Quick, "bounding_box of hexahedron holds its vertices", |c| bounded_hex(c));
}
