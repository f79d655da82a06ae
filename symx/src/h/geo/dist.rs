//! P05: distances, signed distances, containment, signed distance functions, solid angles.
use crate::h;
use crate::h::util::*;
use fenris_geometry::sdf::*;
use fenris_geometry::*;

type P2 = [i64; 2];
/// (vertices times `den`)
fn polygon2<T: Real, C: Cx<T>>(c: &C, v: &[P2]) -> Vec<Point2<T>> {
    v.iter().map(|p| Point2::new(c.int(p[0]), c.int(p[1]))).collect()
}
fn shape2(k: usize) -> Vec<P2> {
    match k {
        0 => vec![[0, 0], [3, 0], [0, 4]],
        1 => vec![[0, 0], [2, 0], [2, 2], [0, 2]],
        // reflex vertex at (3, 4)... a dart with rational edge lengths
        2 => vec![[0, 0], [4, 3], [8, 0], [4, 12]],
        // L
        3 => vec![[0, 0], [4, 0], [4, 2], [2, 2], [2, 4], [0, 4]],
        // U: the closest edge to a point in the slot is a reflex corner
        4 => vec![[0, 0], [6, 0], [6, 4], [4, 4], [4, 1], [2, 1], [2, 4], [0, 4]],
        // irrational edge lengths, convex
        5 => vec![[0, 0], [3, 1], [4, 4], [1, 3]],
        // wedge with a sharp apex: vertex regions wider than 90 degrees
        6 => vec![[0, 0], [12, -5], [12, 5]],
        _ => vec![[1, 0], [2, 2], [0, 1]],
    }
}

/// Even-odd membership of x in a polygon with concrete vertices (only meaningful off the boundary).
fn inside2<T: Real, C: Cx<T>>(c: &C, v: &[P2], x: &Point2<T>) -> bool {
    let mut r = false;
    for i in 0..v.len() {
        let (a, b) = (v[i], v[(i + 1) % v.len()]);
        let (lo, hi) = if a[1] <= b[1] { (a, b) } else { (b, a) };
        if lo[1] == hi[1] {
            continue;
        }
        if c.int(lo[1]) <= x.y && x.y < c.int(hi[1]) {
            // x left of the edge at its height
            let w = c.int(hi[0] - lo[0]) * (x.y - c.int(lo[1])) - (x.x - c.int(lo[0])) * c.int(hi[1] - lo[1]);
            if w > T::zero() {
                r = !r;
            }
        }
    }
    r
}

fn poly_signed<T: Real, C: Cx<T>>(c: &mut C, ks: &[usize]) {
    let k = ks[c.choose("shape", ks.len())];
    let v = shape2(k);
    let n = v.len();
    let p = SimplePolygon2d::from_vertices(polygon2(c, &v));
    let x = pt2(c, "x", 16.0);
    let r = p.closest_edge(&x).expect("polygon has edges");
    let z = T::zero();
    c.holds("edge index in range", r.edge_index < n);
    c.le("parameter >= 0", z, r.edge_parameter);
    c.le("parameter <= 1", r.edge_parameter, T::one());
    let e = p.get_edge(r.edge_index).unwrap();
    let q = e.start() + (e.end() - e.start()) * r.edge_parameter;
    same(c, "edge point lies on the edge at the parameter", &r.edge_point.coords, &q.coords);
    let d2 = (x - r.edge_point).norm_squared();
    c.eq("|signed distance| is the distance to the edge point", r.signed_distance * r.signed_distance, d2);
    let i = c.choose("other edge", n);
    let o = p.get_edge(i).unwrap();
    let t = c.var("t", 0.0, 1.0);
    let y = o.start() + (o.end() - o.start()) * t;
    c.le("no boundary point is closer", d2, (x - y).norm_squared());
    c.assume_lt(z, d2);
    if inside2(c, &v, &x) {
        c.lt("negative inside", r.signed_distance, z);
        let d = p.distance(&x);
        c.eq("distance is zero inside", d, z);
    } else {
        c.lt("positive outside", z, r.signed_distance);
        let d = p.distance(&x);
        c.eq("distance is the distance to the boundary outside", d * d, d2);
    }
}

/// The signed distance of a point near a chosen vertex, where the sign needs the pseudonormal.
fn poly_signed_corner<T: Real, C: Cx<T>>(c: &mut C, ks: &[usize]) {
    let k = ks[c.choose("shape", ks.len())];
    let v = shape2(k);
    let n = v.len();
    let i = c.choose("vertex", n);
    let p = SimplePolygon2d::from_vertices(polygon2(c, &v));
    let x = Point2::new(c.var("x.x", -0.5, 0.5), c.var("x.y", -0.5, 0.5)) + p.vertices()[i].coords;
    let r = p.closest_edge(&x).unwrap();
    let d2 = (x - r.edge_point).norm_squared();
    c.assume_lt(T::zero(), d2);
    if inside2(c, &v, &x) {
        c.lt("negative inside", r.signed_distance, T::zero());
    } else {
        c.lt("positive outside", T::zero(), r.signed_distance);
    }
}

fn pseudonormals<T: Real, C: Cx<T>>(c: &mut C) {
    let v = shape2([0, 1, 2, 3, 6][c.choose("shape", 5)]);
    let n = v.len();
    let p = SimplePolygon2d::from_vertices(polygon2::<T, C>(c, &v));
    let i = c.choose("edge", n);
    let out = |k: usize| {
        let e = p.get_edge(k % n).unwrap();
        let d = e.end() - e.start();
        Vector2::new(d.y, -d.x) / d.norm()
    };
    let t = c.var("t", 0.0, 1.0);
    let m = p.pseudonormal_on_edge(i, t).unwrap();
    c.eq("unit length", m.norm_squared(), T::one());
    let want = if t == T::zero() {
        out(i + n - 1) + out(i)
    } else if t == T::one() {
        out(i + 1) + out(i)
    } else {
        out(i)
    };
    c.eq("direction of the average outward normal", m.perp(&want), T::zero());
    c.lt("pointing outward", T::zero(), m.dot(&want));
    c.holds("no such edge", p.pseudonormal_on_edge(n, t).is_none() && p.get_edge(n).is_none());
    let mut k = 0;
    p.for_each_edge(|j, e| {
        assert_eq!(j, k);
        assert!(e == p.get_edge(j).unwrap());
        k += 1;
    });
    c.holds("every edge visited once", k == n && p.num_edges() == n && Polygon2d::num_vertices(&p) == n && p.edge_iter().count() == n);
}

fn tri2_signed<T: Real, C: Cx<T>>(c: &mut C) {
    let v = shape2([0, 7, 6][c.choose("shape", 3)]);
    let p = polygon2(c, &v);
    let tri = Triangle([p[0], p[1], p[2]]);
    tri_signed(c, &tri)
}
fn tri2_signed_free<T: Real, C: Cx<T>>(c: &mut C) {
    let (z, o) = (T::zero(), T::one());
    let a = Point2::new(c.var("a.x", -4.0, 4.0), c.var("a.y", 0.25, 4.0));
    tri_signed(c, &Triangle([Point2::new(z, z), Point2::new(o, z), a]))
}
fn tri_signed<T: Real, C: Cx<T>>(c: &mut C, tri: &Triangle2d<T>) {
    let z = T::zero();
    let x = pt2(c, "x", 8.0);
    let r = tri.query_signed_distance(&x).unwrap();
    let d2 = (x - r.point).norm_squared();
    c.eq("|signed distance| is the distance to the reported point", r.signed_distance * r.signed_distance, d2);
    let e = tri.edge(r.feature_id);
    let d = e.end() - e.start();
    c.eq("point lies on the line of the reported edge", d.perp(&(r.point - e.start())), z);
    c.le("not before its start", z, d.dot(&(r.point - e.start())));
    c.le("not behind its end", d.dot(&(r.point - e.start())), d.norm_squared());
    let i = c.choose("other edge", 3);
    let o = tri.edge(i);
    let t = c.var("t", 0.0, 1.0);
    let y = o.start() + (o.end() - o.start()) * t;
    c.le("no boundary point is closer", d2, (x - y).norm_squared());
    let mut inside = true;
    for j in 0..3 {
        let e = tri.edge(j);
        if (e.end() - e.start()).perp(&(x - e.start())) < z {
            inside = false;
        }
    }
    let dist = tri.distance(&x);
    if inside {
        c.le("not positive inside", r.signed_distance, z);
        c.eq("distance zero inside", dist, z);
    } else {
        c.lt("positive outside", z, r.signed_distance);
        c.eq("distance outside", dist, r.signed_distance);
    }
}

fn quad2_distance<T: Real, C: Cx<T>>(c: &mut C, ks: &[usize]) {
    let v = shape2(ks[c.choose("shape", ks.len())]);
    let p = polygon2(c, &v);
    let q = Quad2d([p[0], p[1], p[2], p[3]]);
    let x = pt2(c, "x", 16.0);
    let d = q.distance(&x);
    let b = q.distance_bound(&x);
    c.eq("bounds are exact (lower)", b[0], d);
    c.eq("bounds are exact (upper)", b[1], d);
    if inside2(c, &v, &x) {
        c.eq("zero inside", d, T::zero());
    } else {
        c.le("not negative", T::zero(), d);
        let i = c.choose("edge", 4);
        let t = c.var("t", 0.0, 1.0);
        let y = p[i] + (p[(i + 1) % 4] - p[i]) * t;
        c.le("no closer point", d * d, (x - y).norm_squared());
    }
}

/// Segment against polygon: true iff they share a point (touching configurations excluded).
fn poly_segment<T: Real, C: Cx<T>>(c: &mut C, ks: &[usize], dirs: &[P2]) {
    let k = ks[c.choose("shape", ks.len())];
    let v = shape2(k);
    let n = v.len();
    let p = SimplePolygon2d::from_vertices(polygon2(c, &v));
    let a = pt2(c, "a", 16.0);
    let d = dirs[c.choose("direction", dirs.len())];
    let l = c.frac(1, 4);
    let b = a + Vector2::new(c.int(d[0]), c.int(d[1])) * l;
    let z = T::zero();
    // general position: no endpoint on an edge's line, no vertex on the segment's line
    for i in 0..n {
        let (s, e) = (p.vertices()[i], p.vertices()[(i + 1) % n]);
        c.assume_ne((e - s).perp(&(a - s)), z);
        c.assume_ne((e - s).perp(&(b - s)), z);
        c.assume_ne((b - a).perp(&(s - a)), z);
    }
    let got = p.intersects_segment(&LineSegment2d::from_end_points(a, b));
    let mut crosses = false;
    for i in 0..n {
        let (s, e) = (p.vertices()[i], p.vertices()[(i + 1) % n]);
        let o1 = (e - s).perp(&(a - s)) > z;
        let o2 = (e - s).perp(&(b - s)) > z;
        if o1 != o2 {
            let o3 = (b - a).perp(&(s - a)) > z;
            let o4 = (b - a).perp(&(e - a)) > z;
            crosses |= o3 != o4;
        }
    }
    let want = crosses || inside2(c, &v, &a);
    c.holds("intersects_segment iff an edge is crossed or the segment lies inside", got == want);
}

// ---------------------------------------------------------------------------------------- 3D
fn p3<T: Real, C: Cx<T>>(c: &C, v: [i64; 3]) -> Point3<T> {
    Point3::new(c.int(v[0]), c.int(v[1]), c.int(v[2]))
}

/// q is the point of conv(verts) closest to x: variational inequality over the vertices.
fn closest_in_hull<T: Real, C: Cx<T>>(c: &mut C, verts: &[Point3<T>], x: &Point3<T>, q: &Point3<T>) {
    for v in verts {
        c.le("no point of the convex hull is closer", (x - q).dot(&(v - q)), T::zero());
    }
}

fn face_closest<T: Real, C: Cx<T>>(c: &mut C, which: usize) {
    let z = T::zero();
    let x = pt3(c, "x", 16.0);
    let check = |c: &mut C, vs: &[Point3<T>], n: Vector3<T>, r: PolygonClosestPoint<T, U3>| {
        let q = r.closest_point;
        c.le("distance >= 0", z, r.distance);
        c.eq("distance to the closest point", r.distance * r.distance, (x - q).norm_squared());
        c.eq("closest point lies in the plane", n.dot(&(q - vs[0])), z);
        for i in 0..vs.len() {
            let e = vs[(i + 1) % vs.len()] - vs[i];
            c.le("closest point lies within the edges", z, e.cross(&(q - vs[i])).dot(&n));
        }
        closest_in_hull(c, vs, &x, &q);
    };
    match which {
        0 | 1 => {
            let vs = if which == 0 {
                [[0, 0, 0], [3, 0, 0], [0, 4, 0]].map(|v| p3::<T, C>(c, v))
            } else {
                [[0, 0, 0], [2, 2, 1], [-1, 2, -2]].map(|v| p3::<T, C>(c, v))
            };
            let t = Triangle(vs);
            let n = (vs[1] - vs[0]).cross(&(vs[2] - vs[0]));
            let r = t.closest_point(&x);
            let d = t.distance(&x);
            c.eq("Distance agrees", d, r.distance);
            check(c, &vs, n, r);
        }
        _ => {
            let vs = [[0, 0, 0], [4, 0, 0], [3, 2, 0], [0, 2, 0]].map(|v| p3::<T, C>(c, v));
            let t = Quad3d::from_vertices(vs);
            let n = (vs[1] - vs[0]).cross(&(vs[2] - vs[0]));
            let r = t.closest_point(&x);
            check(c, &vs, n, r);
        }
    }
}

fn orientation3<T: Real, C: Cx<T>>(c: &mut C) {
    let vs = [[0, 0, 0], [2, 2, 1], [-1, 2, -2]].map(|v| p3::<T, C>(c, v));
    let x = pt3(c, "x", 16.0);
    let t = Triangle(vs);
    let det = (vs[1] - vs[0]).cross(&(vs[2] - vs[0])).dot(&(x - vs[0]));
    match t.point_orientation(&x) {
        OrientationTestResult::Positive => c.lt("positive side", T::zero(), det),
        OrientationTestResult::Negative => c.lt("negative side", det, T::zero()),
        OrientationTestResult::Zero => c.eq("in the plane", det, T::zero()),
    }
    let pl = t.compute_plane().unwrap();
    c.le("plane normal has the triangle's side", T::zero(), pl.normal().dot(&(x - vs[0])) * det);
    let hs = t.compute_half_space().unwrap();
    let contained = hs.contains_point(&x);
    c.holds("half-space lies on the side of the normal", contained == (det >= T::zero()));
}

const TETS: [[[i64; 3]; 4]; 2] = [
    [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]],
    [[0, 0, 0], [3, 0, 0], [1, 2, 0], [1, 1, 4]],
];
const HEXES: [[[i64; 3]; 8]; 2] = [
    [[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1], [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]],
    [[0, 0, 0], [2, 0, 0], [2, 3, 0], [0, 3, 0], [1, 0, 2], [3, 0, 2], [3, 3, 2], [1, 3, 2]],
];

/// Outward half-spaces of a convex cell given by its corners and faces (independent of the code's faces).
fn supporting<T: Real, C: Cx<T>>(c: &C, vs: &[[i64; 3]], faces: &[[usize; 3]]) -> Vec<(Vector3<T>, T)> {
    faces
        .iter()
        .map(|f| {
            let s = |a: [i64; 3], b: [i64; 3]| [a[0] - b[0], a[1] - b[1], a[2] - b[2]];
            let (u, w) = (s(vs[f[1]], vs[f[0]]), s(vs[f[2]], vs[f[0]]));
            let mut n = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]];
            let dot = |n: [i64; 3], v: [i64; 3]| n[0] * v[0] + n[1] * v[1] + n[2] * v[2];
            if vs.iter().any(|v| dot(n, *v) > dot(n, vs[f[0]])) {
                n = [-n[0], -n[1], -n[2]];
            }
            (Vector3::new(c.int(n[0]), c.int(n[1]), c.int(n[2])), c.int(dot(n, vs[f[0]])))
        })
        .collect()
}
const TET_F: [[usize; 3]; 4] = [[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]];
const HEX_F: [[usize; 3]; 6] = [[0, 1, 2], [4, 5, 6], [0, 1, 5], [1, 2, 6], [2, 3, 7], [3, 0, 4]];

fn solid_check<T: Real, C: Cx<T>>(
    c: &mut C,
    x: Point3<T>,
    vs: &[[i64; 3]],
    faces: &[[usize; 3]],
    r: SignedDistanceResult<T, U3>,
    contains: bool,
) {
    let z = T::zero();
    let pts: Vec<Point3<T>> = vs.iter().map(|v| p3(c, *v)).collect();
    let hs = supporting(c, vs, faces);
    let inside = hs.iter().all(|(n, o)| n.dot(&x.coords) <= *o);
    c.holds("contains_point iff in every half-space", contains == inside);
    c.holds("face index in range", r.feature_id < faces.len());
    c.eq("|signed distance| is the distance to the reported point", r.signed_distance * r.signed_distance, (x - r.point).norm_squared());
    if inside {
        c.le("not positive inside", r.signed_distance, z);
        for (n, o) in &hs {
            let s = *o - n.dot(&x.coords);
            c.le("no face plane is closer", r.signed_distance * r.signed_distance * n.norm_squared(), s * s);
        }
        let mut on = T::one();
        for (n, o) in &hs {
            on = on * (*o - n.dot(&r.point.coords));
            c.le("reported point lies in the cell", n.dot(&r.point.coords), *o);
        }
        c.eq("reported point lies on the boundary", on, z);
    } else {
        c.lt("positive outside", z, r.signed_distance);
        for (n, o) in &hs {
            c.le("reported point lies in the cell", n.dot(&r.point.coords), *o);
        }
        closest_in_hull(c, &pts, &x, &r.point);
    }
}

const LINES: usize = 9;
/// Query points: a two-parameter family (plane through the cell) or the full space.
fn query3<T: Real, C: Cx<T>>(c: &mut C, slices: usize) -> Point3<T> {
    if slices == 0 {
        return pt3(c, "x", 8.0);
    }
    let u = c.var("u", -8.0, 8.0);
    if slices == LINES {
        let (a, b) = (c.frac(1, 4), c.frac(-3, 2));
        return match c.choose("line", 4) {
            0 => Point3::new(u, a, c.frac(1, 8)),
            1 => Point3::new(b, u, u + a),
            2 => Point3::new(u, b + u, b),
            _ => Point3::new(c.int(3) - u, u, c.int(2) + u),
        };
    }
    let w = c.var("w", -8.0, 8.0);
    match c.choose("slice", slices) {
        0 => Point3::new(u, w, c.frac(1, 4)),
        1 => Point3::new(u, c.frac(1, 4), w),
        2 => Point3::new(c.frac(1, 4), u, w),
        _ => Point3::new(u, w, c.frac(-3, 2)),
    }
}

fn tet_signed<T: Real, C: Cx<T>>(c: &mut C, k: usize, slices: usize) {
    let vs = TETS[k];
    let t = Tetrahedron::from_vertices(vs.map(|v| p3::<T, C>(c, v)));
    let x = query3(c, slices);
    let r = t.compute_signed_distance(&x);
    let cp = t.contains_point(&x);
    solid_check(c, x, &vs, &TET_F, r, cp);
}
fn tet_distance<T: Real, C: Cx<T>>(c: &mut C, k: usize, slices: usize) {
    let vs = TETS[k];
    let pts = vs.map(|v| p3::<T, C>(c, v));
    let t = Tetrahedron::from_vertices(pts);
    let x = query3(c, slices);
    let d = t.distance(&x);
    let hs = supporting::<T, C>(c, &vs, &TET_F);
    let inside = hs.iter().all(|(n, o)| n.dot(&x.coords) <= *o);
    let b = t.distance_bound(&x);
    c.eq("bounds are exact (lower)", b[0], d);
    c.eq("bounds are exact (upper)", b[1], d);
    if inside {
        c.eq("zero inside", d, T::zero());
    } else {
        c.le("not negative", T::zero(), d);
        let r = t.compute_signed_distance(&x);
        c.eq("distance agrees with the signed distance outside", d * d, r.signed_distance * r.signed_distance);
        c.lt("positive outside", T::zero(), d);
    }
}
fn hex_signed<T: Real, C: Cx<T>>(c: &mut C, k: usize, slices: usize) {
    let vs = HEXES[k];
    let t = Hexahedron::from_vertices(vs.map(|v| p3::<T, C>(c, v)));
    let x = query3(c, slices);
    let r = t.query_signed_distance(&x).unwrap();
    let cp = t.contains_point(&x);
    let d = t.distance(&x);
    if r.signed_distance > T::zero() {
        c.eq("Distance outside", d, r.signed_distance);
    } else {
        c.eq("Distance inside", d, T::zero());
    }
    solid_check(c, x, &vs, &HEX_F, r, cp);
}

// ---------------------------------------------------------------------------------------- SDFs
fn sdf_circle<T: Real, C: Cx<T>>(c: &mut C) {
    let z = T::zero();
    let s = SdfCircle { radius: c.var("r", 0.125, 8.0), center: vec2(c, "c", 8.0) };
    let x = pt2(c, "x", 16.0);
    let f = s.eval(&x);
    let d2 = (x.coords - s.center).norm_squared();
    c.eq("value is the distance to the centre minus the radius", (f + s.radius) * (f + s.radius), d2);
    c.le("of the right sign", z, f + s.radius);
    match s.gradient(&x) {
        None => c.eq("no gradient only at the centre", d2, z),
        Some(g) => {
            c.assume_lt(c.frac(1, 64), d2);
            let (sx, x0) = (s, [x.x, x.y]);
            let j = c.jacobian(&x0, &|y| vec![sx.eval(&Point2::new(y[0], y[1]))]);
            c.eq_diff("gradient is the derivative, x", g.x, j[0][0]);
            c.eq_diff("gradient is the derivative, y", g.y, j[0][1]);
        }
    }
}
fn sdf_circle_box<T: Real, C: Cx<T>>(c: &mut C) {
    let s = SdfCircle { radius: c.var("r", 0.125, 8.0), center: vec2(c, "c", 8.0) };
    let x = pt2(c, "x", 24.0);
    let b = s.bounding_box();
    let d2 = (x.coords - s.center).norm_squared();
    c.assume_le(d2, s.radius * s.radius);
    for i in 0..2 {
        c.le("bounding box contains the disk (min)", b.min()[i], x[i]);
        c.le("bounding box contains the disk (max)", x[i], b.max()[i]);
    }
}
fn sdf_box<T: Real, C: Cx<T>>(c: &mut C) {
    let z = T::zero();
    let lo = pt2(c, "lo", 8.0);
    let (w, h) = (c.var("w", 0.125, 8.0), c.var("h", 0.125, 8.0));
    let hi = lo + Vector2::new(w, h);
    let s = SdfAxisAlignedBox { aabb: AxisAlignedBoundingBox2d::new(lo, hi) };
    let x = pt2(c, "x", 24.0);
    let f = s.eval(&x);
    let inside = x.x >= lo.x && x.x <= hi.x && x.y >= lo.y && x.y <= hi.y;
    if inside {
        c.le("not positive inside", f, z);
        let (a, b, d, e) = (x.x - lo.x, hi.x - x.x, x.y - lo.y, hi.y - x.y);
        for m in [a, b, d, e] {
            c.le("no side is closer", -f, m);
        }
        c.eq("some side has that distance", (f + a) * (f + b) * (f + d) * (f + e), z);
    } else {
        c.lt("positive outside", z, f);
        let gap = |p: T, a: T, b: T| {
            if p < a {
                a - p
            } else if p > b {
                p - b
            } else {
                z
            }
        };
        let (u, v) = (gap(x.x, lo.x, hi.x), gap(x.y, lo.y, hi.y));
        c.eq("distance to the box", f * f, u * u + v * v);
    }
    let bb = s.bounding_box();
    same(c, "bounding box min", &bb.min().coords, &lo.coords);
    same(c, "bounding box max", &bb.max().coords, &hi.coords);
}
fn sdf_box_gradient<T: Real, C: Cx<T>>(c: &mut C) {
    let lo = Point2::new(c.int(-2), c.int(-1));
    let hi = Point2::new(c.int(2), c.int(1));
    let s = SdfAxisAlignedBox { aabb: AxisAlignedBoundingBox2d::new(lo, hi) };
    // points away from the kinks of the function by more than the difference step
    let side = c.choose("side", 4);
    let t = c.frac(1, 1024);
    let (x, want) = match side {
        0 => (Point2::new(c.int(2) + c.var("d", -0.5, 4.0), c.var("s", -0.9, 0.9)), [1, 0]),
        1 => (Point2::new(c.int(-2) - c.var("d", -0.5, 4.0), c.var("s", -0.9, 0.9)), [-1, 0]),
        2 => (Point2::new(c.var("sx", -1.5, 1.5), c.int(1) + c.var("dy", -0.25, 4.0)), [0, 1]),
        _ => (Point2::new(c.var("sx", -1.5, 1.5), c.int(-1) - c.var("dy", -0.25, 4.0)), [0, -1]),
    };
    // region of the nearest side (inside the box: nearer to this side than to the others)
    if side < 2 {
        let dx = if side == 0 { c.int(2) - x.x } else { c.int(2) + x.x };
        c.assume_lt(dx + t, c.int(1) - x.y);
        c.assume_lt(dx + t, c.int(1) + x.y);
    } else {
        let dy = if side == 2 { c.int(1) - x.y } else { c.int(1) + x.y };
        c.assume_lt(dy + t, c.int(2) - x.x);
        c.assume_lt(dy + t, c.int(2) + x.x);
    }
    let g = s.gradient(&x).unwrap();
    c.eq("gradient is the outward normal of the nearest side, x", g.x, c.int(want[0]));
    c.eq("gradient is the outward normal of the nearest side, y", g.y, c.int(want[1]));
}
fn sdf_union<T: Real, C: Cx<T>>(c: &mut C) {
    let a = SdfCircle { radius: c.var("r", 0.5, 4.0), center: vec2(c, "c", 8.0) };
    let b = SdfCircle { radius: c.int(1), center: Vector2::new(c.int(3), c.int(0)) };
    let u = a.union(b);
    let x = pt2(c, "x", 16.0);
    let (fa, fb, f) = (a.eval(&x), b.eval(&x), u.eval(&x));
    c.le("not above the left value", f, fa);
    c.le("not above the right value", f, fb);
    c.eq("one of the two", (f - fa) * (f - fb), T::zero());
    let want = if fa < fb { a.gradient(&x) } else { b.gradient(&x) };
    match (u.gradient(&x), want) {
        (Some(g), Some(w)) => {
            c.eq("gradient of the active one, x", g.x, w.x);
            c.eq("gradient of the active one, y", g.y, w.y);
        }
        (g, w) => c.holds("gradient exists together", g.is_none() == w.is_none()),
    }
    let (ba, bb, bu) = (a.bounding_box(), b.bounding_box(), u.bounding_box());
    for i in 0..2 {
        c.le("box holds left", bu.min()[i], ba.min()[i]);
        c.le("box holds left", ba.max()[i], bu.max()[i]);
        c.le("box holds right", bu.min()[i], bb.min()[i]);
        c.le("box holds right", bb.max()[i], bu.max()[i]);
    }
}

// ---------------------------------------------------------------------------------------- solid angles
/// Unit direction triples (as integer vector / integer length).
const DIRS: [[([i64; 3], i64); 3]; 7] = [
    // an octant
    [([1, 0, 0], 1), ([0, 1, 0], 1), ([0, 0, 1], 1)],
    [([1, 2, 2], 3), ([-2, 1, 2], 3), ([0, 0, 1], 1)],
    [([2, 3, 6], 7), ([1, 4, 8], 9), ([4, 4, 7], 9)],
    // seen from close by: nearly a half sphere and more
    [([4, 4, 7], 9), ([-4, 4, 7], 9), ([1, -8, -4], 9)],
    [([2, 2, 1], 3), ([-2, 1, -2], 3), ([1, -2, 2], 3)],
    [([12, 0, -5], 13), ([-3, 4, 0], 5), ([-3, -4, 0], 5)],
    [([12, 0, 5], 13), ([-8, 9, 12], 17), ([-8, -9, 12], 17)],
];
/// Solid angle by the spherical excess (angles of the spherical triangle), signed by orientation.
fn excess(d: &[([i64; 3], i64); 3]) -> f64 {
    let u: Vec<Vector3<f64>> = d.iter().map(|(v, l)| Vector3::new(v[0] as f64, v[1] as f64, v[2] as f64) / *l as f64).collect();
    let ang = |a: &Vector3<f64>, b: &Vector3<f64>, c: &Vector3<f64>| {
        let (p, q) = (a.cross(b).normalize(), a.cross(c).normalize());
        p.dot(&q).clamp(-1.0, 1.0).acos()
    };
    let e = ang(&u[0], &u[1], &u[2]) + ang(&u[1], &u[2], &u[0]) + ang(&u[2], &u[0], &u[1]) - std::f64::consts::PI;
    if u[0].cross(&u[1]).dot(&u[2]) < 0.0 {
        -e
    } else {
        e
    }
}

fn solid_angle<T: Real, C: Cx<T>>(c: &mut C) {
    let k = c.choose("directions", DIRS.len());
    let flip = c.choose("flip", 2) == 1;
    let mut d = DIRS[k];
    if flip {
        d.swap(1, 2);
    }
    let p = pt3(c, "p", 8.0);
    let v: Vec<Point3<T>> = (0..3)
        .map(|i| {
            let l = c.var(&format!("l{i}"), 0.125, 8.0);
            let (w, m) = d[i];
            p + Vector3::new(c.frac(w[0], m), c.frac(w[1], m), c.frac(w[2], m)) * l
        })
        .collect();
    let t = Triangle([v[0], v[1], v[2]]);
    let o = t.compute_solid_angle(&p);
    let half = o / c.int(2);
    let want = excess(&d);
    let (co, si) = (half.cos(), half.sin());
    c.eq_tol("solid angle (cosine of half)", co, c.lit((want / 2.0).cos()), 1e-6);
    c.eq_tol("solid angle (sine of half)", si, c.lit((want / 2.0).sin()), 1e-6);
}
fn winding<T: Real, C: Cx<T>>(c: &mut C) {
    let vs: Vec<Point3<T>> = TETS[0].iter().map(|v| p3(c, *v)).collect();
    let tri = |a: usize, b: usize, d: usize| Triangle([vs[a], vs[b], vs[d]]);
    let x = pt3(c, "x", 4.0);
    let all = [tri(2, 1, 0), tri(0, 1, 3), tri(1, 2, 3), tri(2, 0, 3)];
    let n = c.choose("count", 5);
    let w = compute_winding_number_for_triangles_3d(all[..n].to_vec(), &x);
    let mut s = T::zero();
    for t in &all[..n] {
        s = s + t.compute_solid_angle(&x);
    }
    c.eq("winding number is the summed solid angle over 4 pi", w * c.int(4) * T::pi(), s);
}

pub fn list(v: &mut Vec<Harness>) {
    h!(v, "P05", "poly_signed", Quick, "SimplePolygon2d closest edge and signed distance, concrete shapes, any point", |c| poly_signed(c, &[0]));
    h!(v, "P05", "poly_signed_more", Thorough, "SimplePolygon2d closest edge and signed distance, more shapes", |c| poly_signed(c, &[1, 2, 3, 4, 5, 6]));
    h!(v, "P05", "poly_corner", Quick, "sign of the signed distance near every vertex", |c| poly_signed_corner(c, &[2, 3, 6]));
    h!(v, "P05", "poly_corner_more", Thorough, "sign of the signed distance near every vertex", |c| poly_signed_corner(c, &[0, 1, 4, 5]));
    h!(v, "P05", "pseudonormals", Quick, "edges and pseudonormals", |c| pseudonormals(c));
    h!(v, "P05", "tri2_signed", Quick, "Triangle2d signed distance, concrete triangles", |c| tri2_signed(c));
    h!(v, "P05", "tri2_signed_free", Thorough, "Triangle2d signed distance, free apex", |c| tri2_signed_free(c));
    h!(v, "P05", "quad2_distance", Quick, "Quad2d distance", |c| quad2_distance(c, &[2]));
    h!(v, "P05", "quad2_distance_more", Thorough, "Quad2d distance", |c| quad2_distance(c, &[1, 5]));
    h!(v, "P05", "poly_segment", Quick, "polygon x segment of fixed direction anywhere", |c| poly_segment(c, &[0], &[[40, 8], [-3, 1], [4, -24]]));
    h!(v, "P05", "poly_segment_more", Thorough, "polygon x segment of fixed direction anywhere", |c| poly_segment(c, &[1, 2, 6], &[[40, 8], [-3, 1], [4, -24], [100, 4]]));
    h!(v, "P05", "tri3_closest", Quick, "Triangle3d closest point", |c| face_closest(c, 0));
    h!(v, "P05", "tri3_closest_tilted", Quick, "Triangle3d closest point", |c| face_closest(c, 1));
    h!(v, "P05", "quad3_closest", Quick, "planar Quad3d closest point", |c| face_closest(c, 2));
    h!(v, "P05", "orientation3", Quick, "Triangle3d point orientation, plane, half-space", |c| orientation3(c));
    h!(v, "P05", "tet_signed", Quick, "Tetrahedron signed distance and containment, lines", |c| tet_signed(c, 0, LINES));
    h!(v, "P05", "tet_signed_all", Thorough, "Tetrahedron signed distance and containment", |c| tet_signed(c, 0, 4));
    h!(v, "P05", "tet_signed_skew", Thorough, "Tetrahedron signed distance and containment", |c| tet_signed(c, 1, 4));
    h!(v, "P05", "tet_distance", Quick, "Tetrahedron distance, slices", |c| tet_distance(c, 0, LINES));
    h!(v, "P05", "tet_signed_skew_lines", Quick, "skew Tetrahedron signed distance and containment, lines", |c| tet_signed(c, 1, LINES));
    h!(v, "P05", "tet_distance_slices", Thorough, "Tetrahedron distance, slices", |c| tet_distance(c, 0, 4));
    h!(v, "P05", "tet_distance_skew", Thorough, "Tetrahedron distance", |c| tet_distance(c, 1, 4));
    h!(v, "P05", "hex_signed", Quick, "Hexahedron signed distance and containment, slices", |c| hex_signed(c, 0, 1));
    h!(v, "P05", "tet_signed_free", Thorough, "Tetrahedron signed distance and containment, any point", |c| tet_signed(c, 0, 0));
    h!(v, "P05", "hex_signed_slices", Thorough, "Hexahedron signed distance and containment, more slices", |c| hex_signed(c, 0, 4));
    h!(v, "P05", "hex_signed_skew", Thorough, "sheared Hexahedron", |c| hex_signed(c, 1, 4));
    h!(v, "P05", "sdf_circle", Quick, "circle", |c| sdf_circle(c));
    h!(v, "P05", "sdf_circle_box", Quick, "circle bounding box", |c| sdf_circle_box(c));
    h!(v, "P05", "sdf_box", Quick, "arbitrary box", |c| sdf_box(c));
    h!(v, "P05", "sdf_box_gradient", Quick, "box gradient", |c| sdf_box_gradient(c));
    h!(v, "P05", "sdf_union", Quick, "union of circles", |c| sdf_union(c));
    h!(v, "P05", "solid_angle", Quick, "solid angle of triangles in 7 direction triples at any distances, both orientations", |c| solid_angle(c));
    h!(v, "P05", "winding", Quick, "winding number sums", |c| winding(c));
}
