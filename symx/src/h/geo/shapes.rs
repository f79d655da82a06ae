//! P02-P05: degenerate and empty polygons, reference cells, conversions, rigidly moved polygons.
use super::clip::orient;
use crate::h;
use crate::h::util::*;
use fenris_geometry::*;

const B: f64 = 16.0;
const TRI: [(i64, i64); 3] = [(0, 0), (4, 0), (0, 4)];

fn tri<T: Real, C: Cx<T>>(c: &C) -> Vec<Point2<T>> {
    TRI.iter().map(|&(x, y)| Point2::new(c.int(x), c.int(y))).collect()
}
fn half_plane<T: Real, C: Cx<T>>(c: &mut C) -> (Point2<T>, Unit<Vector2<T>>, HalfPlane<T>) {
    let p = pt2(c, "p", B);
    let n = vec2(c, "n", 4.0);
    c.assume_lt(c.frac(1, 16), n.norm_squared());
    let n = Unit::new_normalize(n);
    (p, n, HalfPlane::from_point_and_normal(p, n))
}

/// A polygon without vertices is the empty set.
fn empty<T: Real, C: Cx<T>>(c: &mut C) {
    let e = ConvexPolygon::<T>::from_vertices(vec![]);
    c.holds("is_empty", e.is_empty() && !e.is_point() && !e.is_line_segment() && e.num_edges() == 0);
    let y = pt2(c, "y", B);
    c.holds("an empty polygon contains no point", !e.contains_point(&y));
    let (_, _, h) = half_plane(c);
    c.holds("clipping keeps it empty", e.intersect_halfplane(&h).is_empty());
    let v = [pt2(c, "a", B), pt2(c, "b", B), pt2(c, "d", B)];
    c.assume_lt(T::zero(), orient(&v[0], &v[1], &v[2]));
    let p = ConvexPolygon::from_vertices(v.to_vec());
    c.holds("empty with polygon", e.intersect_polygon(&p).is_empty());
    c.holds("polygon with empty", p.intersect_polygon(&e).is_empty());
    let s = LineSegment2d::from_end_points(v[0], v[1]);
    c.holds("segment with empty", s.intersect_polygon(&e).is_none());
    c.holds("segment polygon with empty", ConvexPolygon::from(s).intersect_polygon(&e).is_empty());
}

/// Polygons of one and two vertices clipped by an arbitrary half-plane.
fn low_dim<T: Real, C: Cx<T>>(c: &mut C) {
    let (p, n, h) = half_plane(c);
    let (a, b) = (pt2(c, "a", B), pt2(c, "b", B));
    if c.choose("vertices", 2) == 0 {
        let q = ConvexPolygon::from_vertices(vec![a]);
        c.holds("is_point", q.is_point() && !q.is_empty() && !q.is_line_segment());
        let r = q.intersect_halfplane(&h);
        let inside = !((a - p).dot(&n) > T::zero());
        c.holds("a point is kept iff it is in the half-plane", r.is_empty() != inside && r.vertices().len() <= 1);
        for v in r.vertices() {
            same(c, "the point", &v.coords, &a.coords);
        }
        return;
    }
    let s = LineSegment2d::from_end_points(a, b);
    let q = ConvexPolygon::from(s.clone());
    c.holds("is_line_segment", q.is_line_segment() && !q.is_point() && !q.is_empty());
    same(c, "start", &q.vertices()[0].coords, &a.coords);
    same(c, "end", &q.vertices()[1].coords, &b.coords);
    let r = q.intersect_halfplane(&h);
    let d = b - a;
    // the result covers exactly the points of the segment in the half-plane: parameters along d
    for v in r.vertices() {
        c.le("in the half-plane", (v - p).dot(&n), T::zero());
        c.eq("on the line", orient(&a, &b, v), T::zero());
        c.le("not before the start", T::zero(), (v - a).dot(&d));
        c.le("not behind the end", (v - b).dot(&d), T::zero());
    }
    let u = c.var("u", 0.0, 1.0);
    let y = a + d * u;
    if !((y - p).dot(&n) > T::zero()) {
        c.holds("common points give a result", !r.is_empty());
        let (mut lo, mut hi) = (false, false);
        for v in r.vertices() {
            lo = lo || !((v - a).dot(&d) > (y - a).dot(&d));
            hi = hi || !((v - a).dot(&d) < (y - a).dot(&d));
        }
        c.holds("common points are between the vertices of the result", lo && hi);
    }
}

/// Membership in polygons of zero area: a segment (with and without repeated vertices), a repeated point.
fn thin<T: Real, C: Cx<T>>(c: &mut C, k: usize) {
    let a = pt2(c, "a", B);
    let b = if k == 2 { pt2(c, "b", B) } else { a + Vector2::new(c.int(2), -T::one()) * c.var("l", -8.0, 8.0) };
    let m = a + (b - a) * c.frac(1, 2);
    let v = match k {
        0 => vec![a, a, a],
        1 => vec![a, b, b],
        2 => vec![a, b],
        _ => vec![a, m, b, m],
    };
    let p = ConvexPolygon::from_vertices(v);
    let y = pt2(c, "y", B);
    let d = b - a;
    let want = if k == 0 {
        y.x == a.x && y.y == a.y
    } else {
        c.assume_lt(T::zero(), d.norm_squared());
        orient(&a, &b, &y) == T::zero() && !((y - a).dot(&d) < T::zero()) && !((y - b).dot(&d) > T::zero())
    };
    c.holds("contains exactly its points", p.contains_point(&y) == want);
}

/// A segment as a polygon, intersected with a triangle.
fn seg_poly<T: Real, C: Cx<T>>(c: &mut C) {
    let w = tri(c);
    let t = ConvexPolygon::from_vertices(w.clone());
    let s = {
        let (a, l) = (pt2(c, "a", B), c.var("l", -8.0, 8.0));
        let d = [(3, -1), (0, 1)][c.choose("direction", 2)];
        LineSegment2d::from_end_points(a, a + Vector2::new(c.int(d.0), c.int(d.1)) * l)
    };
    let q = ConvexPolygon::from(s.clone());
    let r = if c.choose("order", 2) == 0 { q.intersect_polygon(&t) } else { t.intersect_polygon(&q) };
    match s.intersect_polygon(&t) {
        None => c.holds("no common point", r.is_empty()),
        Some(x) => {
            c.holds("a segment", r.is_line_segment());
            same(c, "start", &r.vertices()[0].coords, &x.start().coords);
            same(c, "end", &r.vertices()[1].coords, &x.end().coords);
        }
    }
}

fn reference_cells<T: Real, C: Cx<T>>(c: &mut C) {
    let h = Hexahedron::<T>::reference();
    let s = c.var("x", -4.0, 4.0);
    let k = c.choose("axis", 3);
    let mut x = Point3::new(c.frac(1, 2), c.frac(-1, 4), c.frac(2, 3));
    x[k] = s;
    let bb = h.bounding_box();
    for i in 0..3 {
        c.eq("box", bb.min()[i], -T::one());
        c.eq("box", bb.max()[i], T::one());
    }
    let inside = (0..3).all(|i| !(x[i] < -T::one()) && !(x[i] > T::one()));
    let sd = h.compute_signed_distance(&x).signed_distance;
    c.holds("inside iff the signed distance is not positive", inside == !(sd > T::zero()));
}

/// The faces of the reference cells, in their documented order.
fn reference_faces<T: Real, C: Cx<T>>(c: &mut C) {
    let h = Hexahedron::<T>::reference();
    let want = [[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1], [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]];
    let mut seen = vec![];
    c.holds("six faces", h.num_faces() == 6);
    for i in 0..6 {
        let f = h.get_face(i).unwrap();
        let mut idx = vec![];
        // a quadrilateral face: its vertices are four of the cube's, around the boundary
        for v in 0..f.num_vertices() {
            let q = f.get_vertex(v).unwrap();
            let k = want.iter().position(|w| (0..3).all(|j| q[j] == c.int(w[j])));
            c.holds("a vertex of the cube", k.is_some());
            idx.extend(k);
        }
        c.holds("four vertices", idx.len() == 4);
        for j in 0..idx.len() {
            let (p, q) = (want[idx[j]], want[idx[(j + 1) % idx.len()]]);
            c.holds("edges of the cube", (0..3).filter(|&j| p[j] != q[j]).count() == 1);
        }
        idx.sort();
        seen.push(idx);
    }
    seen.sort();
    seen.dedup();
    c.holds("six different faces", seen.len() == 6);
    c.holds("each on one side of the cube", seen.iter().all(|f| (0..3).any(|j| f.iter().all(|&k| want[k][j] == want[f[0]][j]))));
}

fn convert<T: Real, C: Cx<T>>(c: &mut C) {
    let v = [pt2(c, "a", B), pt2(c, "b", B), pt2(c, "d", B)];
    let p = ConvexPolygon::from(Triangle(v));
    c.holds("three vertices", p.vertices().len() == 3);
    for i in 0..3 {
        same(c, "triangle vertices in order", &p.vertices()[i].coords, &v[i].coords);
    }
    let s: SimplePolygon2d<T> = p.into();
    c.holds("three vertices", Polygon2d::num_vertices(&s) == 3);
    for i in 0..3 {
        same(c, "polygon vertices in order", &s.vertices()[i].coords, &v[i].coords);
    }
}

/// Rigid motions and arbitrary vertex maps of polygons.
fn transform<T: Real, C: Cx<T>>(c: &mut C) {
    let v: Vec<Point2<T>> = (0..4).map(|i| pt2(c, &format!("v{i}"), B)).collect();
    let mut p = SimplePolygon2d::from_vertices(v.clone());
    let t = vec2(c, "t", B);
    let (mut i, n) = (0, v.len());
    p.transform_vertices(|vs| {
        i = vs.len();
        for (k, x) in vs.iter_mut().enumerate() {
            *x = *x + t * T::from_usize(k).unwrap();
        }
    });
    c.holds("every vertex offered", i == n);
    for k in 0..n {
        same(c, "mapped vertex", &p.vertices()[k].coords, &(v[k] + t * c.int(k as i64)).coords);
    }
}

/// A polygon in the plane moved into space by a rigid motion.
fn isometry<T: Real, C: Cx<T>>(c: &mut C) {
    let v: Vec<Point2<T>> = (0..4).map(|i| pt2(c, &format!("v{i}"), B)).collect();
    let qs: [[i64; 5]; 4] = [[1, 1, 1, 1, 2], [3, 0, 4, 0, 5], [2, -1, 0, 2, 3], [0, 2, 3, 6, 7]];
    let k = qs[c.choose("rotation", qs.len())];
    let [w, x, y, z] = [0, 1, 2, 3].map(|i| c.frac(k[i], k[4]));
    let t = vec3(c, "t", B);
    let iso = Isometry3::from_parts(Translation3::from(t), Unit::new_unchecked(Quaternion::new(w, x, y, z)));
    let p = SimplePolygon2d::from_vertices(v.clone()).apply_isometry(&iso);
    let two = c.int(2);
    let o = T::one();
    let r = Matrix3::new(
        o - two * (y * y + z * z), two * (x * y - z * w), two * (x * z + y * w),
        two * (x * y + z * w), o - two * (x * x + z * z), two * (y * z - x * w),
        two * (x * z - y * w), two * (y * z + x * w), o - two * (x * x + y * y),
    );
    c.holds("all vertices", p.vertices().len() == 4);
    for i in 0..4 {
        let want = r * Vector3::new(v[i].x, v[i].y, T::zero()) + t;
        same(c, "moved vertex", &p.vertices()[i].coords, &want);
    }
}

pub fn list(v: &mut Vec<Harness>) {
    h!(v, "P03", "empty", Quick, "the empty polygon against arbitrary points, half-planes, triangles and segments", |c| empty(c));
    h!(v, "P03", "low_dim", Quick, "polygons of one and two vertices x arbitrary half-plane", |c| low_dim(c));
    h!(v, "P03", "thin_point", Quick, "membership in a repeated point", |c| thin(c, 0));
    h!(v, "P03", "thin_edge", Quick, "membership in a segment given as triangle", |c| thin(c, 1));
    h!(v, "P03", "thin_segment", Quick, "membership in a segment", |c| thin(c, 2));
    h!(v, "P03", "thin_split", Quick, "membership in a segment with intermediate vertices", |c| thin(c, 3));
    h!(v, "P03", "seg_poly", Quick, "segments of two directions as polygon x triangle, either order", |c| seg_poly(c));
    h!(v, "P04", "reference_faces", Quick, "faces of the reference hexahedron", |c| reference_faces(c));
    h!(v, "P05", "reference_cells", Quick, "signed distance of the reference hexahedron", |c| reference_cells(c));
    h!(v, "P04", "convert", Quick, "triangle to polygon conversions keep the vertices", |c| convert(c));
    h!(v, "P04", "transform", Quick, "mapping polygon vertices", |c| transform(c));
    h!(v, "P04", "isometry", Quick, "rigidly moving polygons into space", |c| isometry(c));
}
