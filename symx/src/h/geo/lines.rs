//! P02: lines, segments, planes, half-planes, half-spaces and disks.
use crate::h;
use crate::h::util::*;
use fenris_geometry::*;

const B: f64 = 64.0;

fn seg2<T: Real, C: Cx<T>>(c: &mut C, n: &str) -> LineSegment2d<T> {
    LineSegment2d::from_end_points(pt2(c, &format!("{n}a"), B), pt2(c, &format!("{n}b"), B))
}
fn seg3<T: Real, C: Cx<T>>(c: &mut C, n: &str) -> LineSegment3d<T> {
    LineSegment3d::from_end_points(pt3(c, &format!("{n}a"), B), pt3(c, &format!("{n}b"), B))
}
fn unit2<T: Real, C: Cx<T>>(c: &mut C, n: &str) -> Unit<Vector2<T>> {
    let v = vec2(c, n, 8.0);
    c.assume_lt(c.frac(1, 16), v.norm_squared());
    Unit::new_normalize(v)
}
fn unit3<T: Real, C: Cx<T>>(c: &mut C, n: &str) -> Unit<Vector3<T>> {
    let v = vec3(c, n, 8.0);
    c.assume_lt(c.frac(1, 16), v.norm_squared());
    Unit::new_normalize(v)
}
fn same<T: Real, D: DimName, C: Cx<T>>(c: &mut C, what: &str, a: &OVector<T, D>, b: &OVector<T, D>)
where
    DefaultAllocator: nalgebra::allocator::Allocator<T, D>,
{
    for i in 0..D::dim() {
        c.eq(what, a[i], b[i]);
    }
}

/// Optimality of a point at parameter t of a segment a + t d, for the distance to x.
fn optimal<T: Real, D: DimName, C: Cx<T>>(
    c: &mut C,
    a: &OPoint<T, D>,
    b: &OPoint<T, D>,
    t: T,
    x: &OPoint<T, D>,
) where
    DefaultAllocator: nalgebra::allocator::Allocator<T, D>,
{
    let (z, o) = (T::zero(), T::one());
    c.le("parameter >= 0", z, t);
    c.le("parameter <= 1", t, o);
    let d = b - a;
    let q = a + &d * t;
    let g = (&q - x).dot(&d);
    // first-order conditions of the (convex) distance on [0, 1]
    if t > z {
        c.le("no closer point towards the start", g, z);
    }
    if t < o {
        c.le("no closer point towards the end", z, g);
    }
}

fn closest2<T: Real, C: Cx<T>>(c: &mut C) {
    let s = seg2(c, "s");
    let x = pt2(c, "x", B);
    let t = s.closest_point_parametric(&x);
    optimal(c, s.start(), s.end(), t, &x);
    let q = s.closest_point(&x);
    same(c, "closest point is the point at the parameter", &q.coords, &(s.start() + (s.end() - s.start()) * t).coords);
    let u = c.var("u", 0.0, 1.0);
    let y = s.start() + (s.end() - s.start()) * u;
    c.le("no closer point on the segment", (q - x).norm_squared(), (y - x).norm_squared());
}

fn closest3<T: Real, C: Cx<T>>(c: &mut C) {
    let s = seg3(c, "s");
    let x = pt3(c, "x", B);
    let t = s.closest_point_parametric(&x);
    optimal(c, s.start(), s.end(), t, &x);
    let q = s.closest_point(&x);
    same(c, "closest point is the point at the parameter", &q.coords, &(s.start() + (s.end() - s.start()) * t).coords);
}

fn seg_basic<T: Real, C: Cx<T>>(c: &mut C) {
    let s = seg2(c, "s");
    let (a, b) = (*s.start(), *s.end());
    same(c, "tangent", &s.tangent_dir(), &(b - a));
    let r = s.reverse();
    same(c, "reverse start", &r.start().coords, &b.coords);
    same(c, "reverse end", &r.end().coords, &a.coords);
    let m = s.midpoint();
    same(c, "midpoint", &(m - a), &(b - m));
    let l = s.length();
    c.le("length >= 0", T::zero(), l);
    c.eq("length", l * l, (b - a).norm_squared());
    let n = s.normal_dir();
    c.eq("normal is orthogonal", n.dot(&(b - a)), T::zero());
    c.eq("normal keeps the length", n.norm_squared(), (b - a).norm_squared());
    // to the right of the direction of travel
    c.le("normal points right", (b - a).perp(&n), T::zero());
    let (t0, t1) = (c.var("t0", -4.0, 4.0), c.var("t1", -4.0, 4.0));
    let w = s.segment_from_parameters(&t0, &t1);
    same(c, "subsegment start", &w.start().coords, &(a + (b - a) * t0).coords);
    same(c, "subsegment end", &w.end().coords, &(a + (b - a) * t1).coords);
    let line = s.to_line();
    same(c, "line point", &line.point_from_parameter(t0).coords, &(a + (b - a) * t0).coords);
    c.assume_lt(T::zero(), (b - a).norm_squared());
    let t = line.tangent();
    c.eq("unit tangent", t.norm_squared(), T::one());
    c.eq("tangent parallel", t.perp(&(b - a)), T::zero());
    c.lt("tangent direction", T::zero(), t.dot(&(b - a)));
    let line2 = Line2d::from_point_through_point(a, &b);
    same(c, "line through points", &line2.point_from_parameter(T::one()).coords, &b.coords);
}

fn project3<T: Real, C: Cx<T>>(c: &mut C) {
    let a = pt3(c, "a", B);
    let d = vec3(c, "d", B);
    let x = pt3(c, "x", B);
    let l = Line3d::from_point_and_dir(a, d);
    let q = l.project_point(&x);
    let t = l.project_point_parametric(&x);
    same(c, "projection lies on the line", &q.coords, &(a + d * t).coords);
    c.eq("projection is orthogonal", (q - x).dot(&d), T::zero());
}

fn line_line<T: Real, C: Cx<T>>(c: &mut C) {
    let (a1, d1) = (pt2(c, "a1", B), vec2(c, "d1", B));
    let (a2, d2) = (pt2(c, "a2", B), vec2(c, "d2", B));
    let l1 = Line2d::from_point_and_dir(a1, d1);
    let l2 = Line2d::from_point_and_dir(a2, d2);
    match l1.intersect_line_parametric(&l2) {
        Some((t1, t2)) => {
            same(c, "both parameters give the same point", &(a1 + d1 * t1).coords, &(a2 + d2 * t2).coords);
            let q = l1.intersect(&l2).unwrap();
            same(c, "intersect returns that point", &q.coords, &(a1 + d1 * t1).coords);
        }
        None => {
            c.eq("no intersection only for parallel lines", d1.perp(&d2), T::zero());
            c.holds("intersect agrees", l1.intersect(&l2).is_none());
        }
    }
}

fn seg_seg<T: Real, C: Cx<T>>(c: &mut C) {
    let s = seg2(c, "s");
    let w = seg2(c, "w");
    let (ds, dw) = (s.end() - s.start(), w.end() - w.start());
    c.assume_ne(ds.perp(&dw), T::zero());
    match s.intersect_segment_parametric(&w) {
        Some(t) => {
            c.le("t >= 0", T::zero(), t);
            c.le("t <= 1", t, T::one());
            let q = s.start() + ds * t;
            let r = q - w.start();
            c.eq("point on the other line", r.perp(&dw), T::zero());
            c.le("after the other start", T::zero(), r.dot(&dw));
            c.le("before the other end", r.dot(&dw), dw.norm_squared());
        }
        None => {
            let (u, v) = (c.var("u", 0.0, 1.0), c.var("v", 0.0, 1.0));
            let (p, q) = (s.start() + ds * u, w.start() + dw * v);
            c.assume_eq(p.x, q.x);
            c.assume_eq(p.y, q.y);
            c.holds("segments reported disjoint share no point", false);
        }
    }
}

fn disk<T: Real, C: Cx<T>>(c: &mut C) -> Disk<T> {
    let o = pt2(c, "o", B);
    let r = c.var("r", 0.0, 32.0);
    let d = Disk::from_center_and_radius(o, r);
    same(c, "disk center", &d.center().coords, &o.coords);
    c.eq("disk radius", d.radius(), r);
    d
}

/// Sign of |a + t d - o|^2 - r^2 at a universally quantified t.
fn line_disk<T: Real, C: Cx<T>>(c: &mut C) {
    let d = disk(c);
    let (a, dir) = (pt2(c, "a", B), vec2(c, "d", B));
    c.assume_lt(T::zero(), dir.norm_squared());
    let l = Line2d::from_point_and_dir(a, dir);
    let g = |t: T| (a + dir * t - d.center()).norm_squared() - d.radius() * d.radius();
    match l.intersect_disk_parametric(&d) {
        Some([t1, t2]) => {
            c.le("ordered", t1, t2);
            c.eq("first point on the circle", g(t1), T::zero());
            c.eq("second point on the circle", g(t2), T::zero());
            // a quadratic with these two roots and positive leading coefficient; the roots also add up
            c.eq("both roots", t1 + t2, -(a - d.center()).dot(&dir) * c.int(2) / dir.norm_squared());
            let s = l.intersect_disk(&d).unwrap();
            same(c, "segment start", &s.start().coords, &(a + dir * t1).coords);
            same(c, "segment end", &s.end().coords, &(a + dir * t2).coords);
        }
        None => {
            let t = c.var("t", -256.0, 256.0);
            c.lt("line reported outside has no point in the disk", T::zero(), g(t));
            c.holds("intersect_disk agrees", l.intersect_disk(&d).is_none());
        }
    }
}

fn seg_disk<T: Real, C: Cx<T>>(c: &mut C) {
    let d = disk(c);
    // segment in general position relative to the disk, with end points a and a + dir
    let s = seg2(c, "s");
    let dir = s.end() - s.start();
    c.assume_lt(T::zero(), dir.norm_squared());
    let g = |t: T| (s.start() + dir * t - d.center()).norm_squared() - d.radius() * d.radius();
    let (z, o) = (T::zero(), T::one());
    match s.intersect_disk_parametric(&d) {
        Some([t1, t2]) => {
            c.le("start >= 0", z, t1);
            c.le("ordered", t1, t2);
            c.le("end <= 1", t2, o);
            c.le("start is in the disk", g(t1), z);
            c.le("end is in the disk", g(t2), z);
            if t1 > z {
                c.eq("start on the circle", g(t1), z);
            }
            if t2 < o {
                c.eq("end on the circle", g(t2), z);
            }
        }
        None => {
            let t = c.var("t", 0.0, 1.0);
            c.lt("segment reported outside has no point in the disk", z, g(t));
        }
    }
}

fn seg_halfplane<T: Real, C: Cx<T>>(c: &mut C) {
    let s = seg2(c, "s");
    let n = unit2(c, "n");
    let p = pt2(c, "p", B);
    let h = HalfPlane::from_point_and_normal(p, n);
    let dir = s.end() - s.start();
    let t = c.var("t", 0.0, 1.0);
    let q = s.start() + dir * t;
    let inside = !((q - p).dot(&n) > T::zero());
    match s.intersect_half_plane_parametric(&h) {
        Some([t1, t2]) => {
            c.le("start >= 0", T::zero(), t1);
            c.le("ordered", t1, t2);
            c.le("end <= 1", t2, T::one());
            let within = !(t < t1) && !(t > t2);
            c.holds("points of the segment are in the half-plane iff within the parameters", within == inside);
            let w = s.intersect_half_plane(&h).unwrap();
            same(c, "segment start", &w.start().coords, &(s.start() + dir * t1).coords);
            same(c, "segment end", &w.end().coords, &(s.start() + dir * t2).coords);
        }
        None => {
            c.holds("no point of the segment is in the half-plane", !inside);
            c.holds("intersect_half_plane agrees", s.intersect_half_plane(&h).is_none());
        }
    }
}

fn halfspace<T: Real, C: Cx<T>>(c: &mut C) {
    let n = unit3(c, "n");
    let p = pt3(c, "p", B);
    let x = pt3(c, "x", B);
    let h = HalfSpace::from_point_and_normal(p, n);
    let sd = h.signed_distance_to_point(&x);
    c.eq("signed distance", sd, (x - p).dot(&n));
    // distance: the foot point lies on the boundary plane and x is sd away from it
    let f = x - n.into_inner() * sd;
    c.eq("foot point on the plane", (f - p).dot(&n), T::zero());
    c.eq("distance to foot point", (x - f).norm_squared(), sd * sd);
    let inside = h.contains_point(&x);
    c.holds("contains iff signed distance not positive", inside == !(sd > T::zero()));
    let k = h.complement();
    let kin = k.contains_point(&x);
    c.eq("complement flips the distance", k.signed_distance_to_point(&x), -sd);
    c.holds("half-space and complement cover space", inside || kin);
    let pl = h.plane();
    c.eq("plane normal", pl.normal().dot(&n), T::one());
    c.eq("plane point", (pl.point() - p).dot(&n), T::zero());
    let back = HalfSpace::from_plane(&pl);
    c.eq("from_plane", back.signed_distance_to_point(&x), sd);
    let fl = pl.flipped();
    c.eq("flipped", fl.normal().dot(&n), -T::one());
}

fn halfplane<T: Real, C: Cx<T>>(c: &mut C) {
    let n = unit2(c, "n");
    let p = pt2(c, "p", B);
    let h = HalfPlane::from_point_and_normal(p, n);
    let l = h.surface();
    let t = c.var("t", -B, B);
    let q = l.point_from_parameter(t);
    c.eq("surface line is the boundary", h.signed_distance_to_point(&q), T::zero());
    c.eq("surface direction is unit", l.dir().norm_squared(), T::one());
    // the half-plane (signed distance <= 0) lies on a fixed side
    c.lt("normal is to the left of the surface direction", T::zero(), l.dir().perp(&n));
}

fn plane3<T: Real, C: Cx<T>>(c: &mut C) {
    let n = unit3(c, "n");
    let p = pt3(c, "p", B);
    let pl = Plane::from_point_and_normal(p, n);
    let s = seg3(c, "s");
    let (a, d) = (*s.start(), s.end() - s.start());
    let l = s.to_line();
    match l.intersect_plane_parametric(&pl) {
        Some(t) => {
            c.eq("intersection on the plane", (a + d * t - p).dot(&n), T::zero());
            match s.intersect_plane_parametric(&pl) {
                Some(u) => {
                    c.eq("segment parameter is the line parameter", u, t);
                    c.le("t >= 0", T::zero(), u);
                    c.le("t <= 1", u, T::one());
                }
                None => c.holds("outside the segment", t < T::zero() || t > T::one()),
            }
        }
        None => {
            c.eq("no intersection only for parallel lines", d.dot(&n), T::zero());
        }
    }
}

fn seg_plane_closest<T: Real, C: Cx<T>>(c: &mut C) {
    let n = unit3(c, "n");
    let p = pt3(c, "p", B);
    let pl = Plane::from_point_and_normal(p, n);
    let s = seg3(c, "s");
    let (a, b) = (*s.start(), *s.end());
    c.prove_defined();
    let t = s.closest_point_to_plane_parametric(&pl);
    c.le("t >= 0", T::zero(), t);
    c.le("t <= 1", t, T::one());
    let (ga, gb) = ((a - p).dot(&n), (b - p).dot(&n));
    let gt = (a + (b - a) * t - p).dot(&n);
    // the signed plane distance is affine along the segment, so the minimum of its absolute value is 0 when
    // the signs differ, else the smaller end value
    if (ga <= T::zero() && gb >= T::zero()) || (ga >= T::zero() && gb <= T::zero()) {
        c.eq("reaches the plane", gt, T::zero());
    } else {
        c.le("not further than the start", gt * gt, ga * ga);
        c.le("not further than the end", gt * gt, gb * gb);
    }
    let q = s.closest_point_to_plane(&pl);
    same(c, "closest point", &q.coords, &(a + (b - a) * t).coords);
}

fn tangents<T: Real, C: Cx<T>>(c: &mut C) {
    let n = vec3(c, "n", 1.0);
    c.assume_eq(n.norm_squared(), T::one());
    let u = Unit::new_unchecked(n);
    let pl = Plane::from_point_and_normal(Point3::origin(), u);
    let ws = [fenris_geometry::util::compute_orthonormal_vectors_3d(&u), pl.compute_tangent_vectors()];
    for [s, t] in ws {
        c.eq("first is unit", s.norm_squared(), T::one());
        c.eq("second is unit", t.norm_squared(), T::one());
        c.eq("orthogonal to each other", s.dot(&t), T::zero());
        c.eq("first orthogonal to the normal", s.dot(&n), T::zero());
        c.eq("second orthogonal to the normal", t.dot(&n), T::zero());
    }
}

pub fn list(v: &mut Vec<Harness>) {
    h!(v, "P02", "closest2", Quick, "LineSegment2d closest point vs every point of the segment", |c| closest2(c));
    h!(v, "P02", "closest3", Quick, "LineSegment3d closest point optimality", |c| closest3(c));
    h!(v, "P02", "seg_basic", Quick, "segment/line accessors and derived vectors", |c| seg_basic(c));
    h!(v, "P02", "project3", Quick, "Line3d projection", |c| project3(c));
    h!(v, "P02", "line_line", Quick, "Line2d x Line2d", |c| line_line(c));
    h!(v, "P02", "seg_seg", Quick, "LineSegment2d x LineSegment2d, not parallel", |c| seg_seg(c));
    h!(v, "P02", "line_disk", Quick, "Line2d x Disk", |c| line_disk(c));
    h!(v, "P02", "seg_disk", Quick, "LineSegment2d x Disk", |c| seg_disk(c));
    h!(v, "P02", "seg_halfplane", Quick, "LineSegment2d x HalfPlane", |c| seg_halfplane(c));
    h!(v, "P02", "halfspace", Quick, "HalfSpace/Plane in 3D", |c| halfspace(c));
    h!(v, "P02", "halfplane", Quick, "HalfPlane surface line", |c| halfplane(c));
    h!(v, "P02", "plane3", Quick, "Line3d / LineSegment3d x Plane", |c| plane3(c));
    h!(v, "P02", "seg_plane_closest", Quick, "LineSegment3d closest point to Plane", |c| seg_plane_closest(c));
    h!(v, "P02", "tangents", Quick, "orthonormal tangent vectors", |c| tangents(c));
}
