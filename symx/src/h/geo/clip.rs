//! P03: clipping convex polygons; P04: areas, volumes, orientation, convexity.
use crate::h;
use crate::h::util::*;
use fenris_geometry::*;

const B: f64 = 16.0;

pub fn orient<T: Real>(a: &Point2<T>, b: &Point2<T>, c: &Point2<T>) -> T {
    (b - a).perp(&(c - a))
}

fn shoelace<T: Real>(v: &[Point2<T>]) -> T {
    let mut s = T::zero();
    for i in 1..v.len().max(1) - if v.is_empty() { 0 } else { 1 } {
        s += orient(&v[0], &v[i], &v[i + 1]);
    }
    s
}

fn area3<T: Real>(v: &[Point3<T>]) -> Vector3<T> {
    let mut s = Vector3::zeros();
    if v.len() >= 3 {
        for i in 1..v.len() - 1 {
            s += (v[i] - v[0]).cross(&(v[i + 1] - v[0]));
        }
    }
    s
}

fn pts<T: Real, C: Cx<T>>(c: &mut C, q: &[(i64, i64)]) -> Vec<Point2<T>> {
    q.iter().map(|&(x, y)| Point2::new(c.frac(x, 2), c.frac(y, 2))).collect()
}

/// Concrete convex polygons in counter-clockwise order (coordinates halved).
const CONVEX: [&[(i64, i64)]; 4] = [
    &[(0, 0), (4, 0), (0, 4)],
    &[(-2, -2), (3, -1), (4, 3), (-1, 2)],
    &[(0, 0), (4, 0), (6, 4), (2, 7), (-2, 4)],
    &[(-1, 0), (1, -2), (3, -2), (5, 0), (3, 3), (1, 3)],
];

fn contains_oracle<T: Real>(v: &[Point2<T>], y: &Point2<T>) -> bool {
    (0..v.len()).all(|i| !(orient(&v[i], &v[(i + 1) % v.len()], y) < T::zero()))
}

/// Clip an arbitrary triangle by an arbitrary half-plane.
fn clip_tri<T: Real, C: Cx<T>>(c: &mut C) {
    let v = [pt2(c, "a", B), pt2(c, "b", B), pt2(c, "c", B)];
    c.assume_lt(T::zero(), orient(&v[0], &v[1], &v[2]));
    clip_common(c, &v, true);
}
fn clip_shape<T: Real, C: Cx<T>>(c: &mut C) {
    let k = c.choose("shape", CONVEX.len());
    let v = pts(c, CONVEX[k]);
    clip_common(c, &v, false);
}
fn clip_quad<T: Real, C: Cx<T>>(c: &mut C) {
    let v = [pt2(c, "a", B), pt2(c, "b", B), pt2(c, "c", B), pt2(c, "d", B)];
    for i in 0..4 {
        c.assume_lt(T::zero(), orient(&v[i], &v[(i + 1) % 4], &v[(i + 2) % 4]));
    }
    clip_common(c, &v, true);
}
fn clip_common<T: Real, C: Cx<T>>(c: &mut C, v: &[Point2<T>], free: bool) {
    let p = pt2(c, "p", B);
    let n = vec2(c, "n", 4.0);
    c.assume_lt(c.frac(1, 16), n.norm_squared());
    let n = Unit::new_normalize(n);
    let h = HalfPlane::from_point_and_normal(p, n);
    let g = HalfPlane::from_point_and_normal(p, -n);
    let poly = ConvexPolygon::from_vertices(v.to_vec());
    let r = poly.intersect_halfplane(&h);
    let s = poly.intersect_halfplane(&g);
    c.holds("at most one vertex more", r.vertices().len() <= v.len() + 1);
    for q in r.vertices() {
        c.le("result inside the half-plane", (q - p).dot(&n), T::zero());
        if !free {
            for i in 0..v.len() {
                c.le("result inside the polygon", T::zero(), orient(&v[i], &v[(i + 1) % v.len()], q));
            }
        }
    }
    let total = shoelace(v);
    c.eq("the two sides add up to the polygon", shoelace(r.vertices()) + shoelace(s.vertices()), total);
}

/// Membership: a universally quantified point of the polygon and the half-plane is in the result.
fn clip_member<T: Real, C: Cx<T>>(c: &mut C) {
    let k = c.choose("shape", CONVEX.len());
    let v = pts(c, CONVEX[k]);
    let dirs = [(1, 0), (0, -1), (3, 4), (-4, 3), (-5, -12)];
    let (nx, ny) = dirs[c.choose("dir", dirs.len())];
    let l = ((nx * nx + ny * ny) as f64).sqrt() as i64;
    let n = Unit::new_unchecked(Vector2::new(c.frac(nx, l), c.frac(ny, l)));
    let p = pt2(c, "p", B);
    let h = HalfPlane::from_point_and_normal(p, n);
    let r = ConvexPolygon::from_vertices(v.clone()).intersect_halfplane(&h);
    let y = pt2(c, "y", B);
    for i in 0..v.len() {
        c.assume_le(T::zero(), orient(&v[i], &v[(i + 1) % v.len()], &y));
    }
    c.assume_le((y - p).dot(&n), T::zero());
    c.holds("not empty", !r.vertices().is_empty());
    c.holds("point of both is in the result", contains_oracle(r.vertices(), &y));
    if r.vertices().len() > 2 {
        c.holds("point of both is reported contained", r.contains_point(&y));
    }
}

fn contains<T: Real, C: Cx<T>>(c: &mut C, free: bool) {
    let v = if free {
        let v = vec![pt2(c, "a", B), pt2(c, "b", B), pt2(c, "c", B)];
        c.assume_lt(T::zero(), orient(&v[0], &v[1], &v[2]));
        v
    } else {
        let k = c.choose("shape", CONVEX.len());
        pts(c, CONVEX[k])
    };
    let m = v.len();
    let y = pt2(c, "y", B);
    let poly = ConvexPolygon::from_vertices(v.clone());
    let got = poly.contains_point(&y);
    c.holds("contains_point", got == contains_oracle(&v, &y));
    let hp: Vec<_> = poly.half_planes().collect();
    c.holds("one half-plane per edge", hp.len() == m);
    for q in &v {
        for h in &hp {
            c.le("vertices satisfy every half-plane", h.signed_distance_to_point(q), T::zero());
        }
    }
    let x = v[0];
    c.holds("a point polygon contains exactly its point", ConvexPolygon::from_vertices(vec![x]).contains_point(&y) == (x.x == y.x && x.y == y.y));
}
/// The half-planes of an arbitrary convex quadrilateral are those of its edges.
fn half_planes<T: Real, C: Cx<T>>(c: &mut C) {
    let v = [pt2(c, "a", B), pt2(c, "b", B), pt2(c, "c", B), pt2(c, "d", B)];
    for i in 0..4 {
        c.assume_lt(T::zero(), orient(&v[i], &v[(i + 1) % 4], &v[(i + 2) % 4]));
    }
    let y = pt2(c, "y", B);
    let hp: Vec<_> = ConvexPolygon::from_vertices(v.to_vec()).half_planes().collect();
    c.holds("one half-plane per edge", hp.len() == 4);
    for (i, h) in hp.iter().enumerate() {
        let (d, o) = (v[(i + 1) % 4] - v[i], orient(&v[i], &v[(i + 1) % 4], &y));
        c.holds("inside the half-plane iff to the left of the edge", h.contains_point(&y) == !(o < T::zero()));
        let s = h.signed_distance_to_point(&y);
        c.eq("distance to the edge's line", s * s * d.norm_squared(), o * o);
        for q in &v {
            c.le("vertices satisfy every half-plane", h.signed_distance_to_point(q), T::zero());
        }
    }
}

/// Two convex shapes, one at an arbitrary position.
fn clip_poly<T: Real, C: Cx<T>>(c: &mut C, pairs: &[(usize, usize)]) {
    let (i, j) = pairs[c.choose("pair", pairs.len())];
    let v = pts(c, CONVEX[i]);
    let t = vec2(c, "t", 8.0);
    let w: Vec<_> = pts(c, CONVEX[j]).iter().map(|q| q + t).collect();
    let (pv, pw) = (ConvexPolygon::from_vertices(v.clone()), ConvexPolygon::from_vertices(w.clone()));
    let r = pv.intersect_polygon(&pw);
    for q in r.vertices() {
        for (u, what) in [(&v, "first"), (&w, "second")] {
            for k in 0..u.len() {
                c.le(&format!("result inside the {what} polygon"), T::zero(), orient(&u[k], &u[(k + 1) % u.len()], q));
            }
        }
    }
    c.le("counter-clockwise", T::zero(), shoelace(r.vertices()));
    let y = pt2(c, "y", B);
    for u in [&v, &w] {
        for k in 0..u.len() {
            c.assume_le(T::zero(), orient(&u[k], &u[(k + 1) % u.len()], &y));
        }
    }
    c.holds("a common point exists only if the result is not empty", !r.vertices().is_empty());
    // supporting edges of the result keep the common point
    for k in 0..r.vertices().len() {
        let (a, b) = (r.vertices()[k], r.vertices()[(k + 1) % r.vertices().len()]);
        c.le("common points are inside the result", T::zero(), orient(&a, &b, &y));
    }
}

/// Segment against a convex polygon.
fn clip_seg<T: Real, C: Cx<T>>(c: &mut C, k: usize) {
    let v = pts(c, CONVEX[k]);
    let s = LineSegment2d::from_end_points(pt2(c, "a", B), pt2(c, "b", B));
    let poly = ConvexPolygon::from_vertices(v.clone());
    match s.intersect_polygon(&poly) {
        Some(r) => {
            for q in [r.start(), r.end()] {
                for i in 0..v.len() {
                    c.le("result inside the polygon", T::zero(), orient(&v[i], &v[(i + 1) % v.len()], q));
                }
                c.eq("result on the segment's line", orient(s.start(), s.end(), q), T::zero());
                let d = s.end() - s.start();
                c.le("result not before the start", T::zero(), (q - s.start()).dot(&d));
                c.le("result not after the end", (q - s.end()).dot(&d), T::zero());
            }
        }
        None => {
            let u = c.var("u", 0.0, 1.0);
            let y = s.start() + (s.end() - s.start()) * u;
            c.holds("no point of the segment is in the polygon", !contains_oracle(&v, &y));
        }
    }
}

fn clip_space<T: Real, C: Cx<T>>(c: &mut C, m: usize) {
    let v: Vec<Point3<T>> = if m == 3 {
        (0..3).map(|i| pt3(c, &format!("v{i}"), B)).collect()
    } else {
        // concrete planar polygons (the last one is not convex), mapped into a skew plane
        let k = c.choose("shape", 3);
        let q = pts(c, [CONVEX[1], CONVEX[2], &[(0, 0), (6, 0), (2, 2), (0, 6)]][k]);
        q.iter().map(|q| Point3::new(q.x, q.y, q.x * c.frac(1, 2) - q.y * c.int(2) + T::one())).collect()
    };
    let m = v.len();
    let p = pt3(c, "p", B);
    let n = vec3(c, "n", 4.0);
    c.assume_lt(c.frac(1, 16), n.norm_squared());
    let n = Unit::new_normalize(n);
    let h = HalfSpace::from_point_and_normal(p, n);
    let poly = SimplePolygon3d::from_vertices(v.clone());
    let r = poly.intersect_half_space(&h);
    let s = poly.intersect_half_space(&h.complement());
    for q in r.vertices() {
        c.le("result inside the half-space", (q - p).dot(&n), T::zero());
    }
    let (a, b, t) = (area3(r.vertices()), area3(s.vertices()), area3(&v));
    // a polygon inside the plane belongs to both closed sides
    let in_plane = v.iter().filter(|q| (*q - p).dot(&n) == T::zero()).count() > 2;
    for i in 0..if in_plane { 0 } else { 3 } {
        c.eq("area vectors of the two sides add up", a[i] + b[i], t[i]);
    }
    let kept = v.iter().filter(|q| !((*q - p).dot(&n) > T::zero())).count();
    c.holds("every contained vertex is kept", r.vertices().len() >= kept);
    if kept == v.len() {
        for i in 0..m {
            for j in 0..3 {
                c.eq("unclipped polygon unchanged", r.vertices()[i][j], v[i][j]);
            }
        }
    }
}

fn triangulate<T: Real, C: Cx<T>>(c: &mut C, n: usize) {
    let m = c.choose("vertices", n + 1);
    let v: Vec<Point2<T>> = (0..m).map(|i| pt2(c, &format!("v{i}"), B)).collect();
    let poly = ConvexPolygon::from_vertices(v.clone());
    let ts = poly.triangulate_into_vec();
    c.holds("n - 2 triangles", ts.len() == m.saturating_sub(2));
    c.holds("iterator agrees", poly.triangulate().count() == ts.len());
    let mut s = T::zero();
    for t in &ts {
        s += orient(&t.0[0], &t.0[1], &t.0[2]);
    }
    let total = if m > 2 { shoelace(&v) } else { T::zero() };
    c.eq("triangles add up to the polygon", s, total);
    let sp: SimplePolygon2d<T> = poly.clone().into();
    if m > 0 {
        let ts = sp.assume_convex().triangulate();
        c.holds("n - 2 triangles in the fan", ts.len() == m.saturating_sub(2));
        let mut s = T::zero();
        for t in &ts {
            s += orient(&t.0[0], &t.0[1], &t.0[2]);
        }
        c.eq("simple polygon fan adds up", s, total);
        let p = pt2(c, "p", B);
        let ts = sp.assume_convex().triangulate_at_point(&p);
        c.holds("one triangle per edge", ts.len() == m);
        let mut s = T::zero();
        for t in &ts {
            s += orient(&t.0[0], &t.0[1], &t.0[2]);
            c.eq("apex x", t.0[0].x, p.x);
            c.eq("apex y", t.0[0].y, p.y);
        }
        c.eq("triangles at a point add up", s, total);
    }
}

fn tri_area<T: Real, C: Cx<T>>(c: &mut C) {
    let v = [pt2(c, "a", B), pt2(c, "b", B), pt2(c, "c", B)];
    let t = Triangle(v);
    let o = orient(&v[0], &v[1], &v[2]);
    let two = c.int(2);
    c.eq("signed area", t.signed_area() * two, o);
    let a = t.area();
    c.le("area >= 0", T::zero(), a);
    c.eq("area", a * a * two * two, o * o);
    if o > T::zero() {
        c.holds("counter-clockwise", t.orientation() == Orientation::Counterclockwise);
    }
    if o < T::zero() {
        c.holds("clockwise", t.orientation() == Orientation::Clockwise);
    }
    let g = t.centroid();
    for i in 0..2 {
        c.eq("centroid", g[i] * c.int(3), v[0][i] + v[1][i] + v[2][i]);
    }
    let s = t.sides();
    for i in 0..2 {
        c.eq("sides close up", s[0][i] + s[1][i] + s[2][i], T::zero());
        c.eq("first side", s[0][i], v[1][i] - v[0][i]);
        c.eq("second side", s[1][i], v[2][i] - v[1][i]);
    }
    let w = {
        let mut u = t.clone();
        u.swap_vertices(0, 2);
        u
    };
    c.eq("swapping two vertices flips the signed area", w.signed_area(), -t.signed_area());
    c.eq("orient2d", fenris_geometry::predicates::orient2d_inexact(&v[0], &v[1], &v[2]), o);
}

fn tri3<T: Real, C: Cx<T>>(c: &mut C) {
    let v = [pt3(c, "a", B), pt3(c, "b", B), pt3(c, "c", B)];
    let t = Triangle(v);
    let n = (v[1] - v[0]).cross(&(v[2] - v[0]));
    for i in 0..3 {
        c.eq("normal direction", t.normal_dir()[i], n[i]);
    }
    let a = t.area();
    c.le("area >= 0", T::zero(), a);
    c.eq("area", a * a * c.int(4), n.norm_squared());
    let av = t.compute_area_vector();
    for i in 0..3 {
        c.eq("area vector", av[i] * c.int(2), n[i]);
    }
    c.assume_lt(T::zero(), n.norm_squared());
    let u = t.normal();
    c.eq("unit normal", u.norm_squared(), T::one());
    c.lt("normal side", T::zero(), u.dot(&n));
    let x = pt3(c, "x", B);
    let d = (x - v[0]).dot(&n);
    let o = t.point_orientation(&x);
    let want = if d > T::zero() {
        OrientationTestResult::Positive
    } else if d < T::zero() {
        OrientationTestResult::Negative
    } else {
        OrientationTestResult::Zero
    };
    c.holds("point orientation", o == want);
    let h = t.compute_half_space().unwrap();
    c.holds("half-space is the side of the normal", h.contains_point(&x) == !(d < T::zero()));
    let pl = t.compute_plane().unwrap();
    for q in &v {
        c.eq("plane holds the vertices", (q - pl.point()).dot(pl.normal()), T::zero());
    }
}

/// A simple counter-clockwise quadrilateral, convex or with one concave corner: some diagonal splits it into
/// two counter-clockwise triangles.
fn simple_quad<T: Real, C: Cx<T>>(c: &mut C) -> [Point2<T>; 4] {
    let v = [pt2(c, "a", B), pt2(c, "b", B), pt2(c, "c", B), pt2(c, "d", B)];
    let k = c.choose("diagonal", 2);
    c.assume_lt(T::zero(), orient(&v[k], &v[k + 1], &v[k + 2]));
    c.assume_lt(T::zero(), orient(&v[k], &v[k + 2], &v[(k + 3) % 4]));
    v
}

fn quad<T: Real, C: Cx<T>>(c: &mut C) {
    let v = simple_quad(c);
    let q = Quad2d(v);
    let mut concave = None;
    for i in 0..4 {
        if orient(&v[(i + 3) % 4], &v[i], &v[(i + 1) % 4]) < T::zero() {
            concave = Some(i);
        }
    }
    let got = q.concave_corner();
    c.holds("concave corner", got == concave);
    let (k1, k2) = q.split_into_triangle_connectivities();
    c.holds("connectivity indices", k1.iter().chain(&k2).all(|&i| i < 4));
    let (t1, t2) = q.split_into_triangles();
    for (k, t) in [(k1, &t1), (k2, &t2)] {
        for i in 0..3 {
            c.eq("split vertices", t.0[i].x, v[k[i]].x);
            c.eq("split vertices", t.0[i].y, v[k[i]].y);
        }
        c.le("split triangles counter-clockwise", T::zero(), t.signed_area());
    }
    c.eq("split covers the quad", (t1.signed_area() + t2.signed_area()) * c.int(2), shoelace(&v));
    c.eq("quad area", q.area() * c.int(2), shoelace(&v));
    match ConvexPolygon::try_from(q) {
        Ok(p) => {
            c.holds("only convex quads convert", concave.is_none());
            c.holds("all vertices", p.vertices().len() == 4);
        }
        Err(_) => c.holds("every convex quad converts", concave.is_some()),
    }
}

fn polygon_area<T: Real, C: Cx<T>>(c: &mut C, n: usize) {
    let v: Vec<Point2<T>> = (0..n).map(|i| pt2(c, &format!("v{i}"), B)).collect();
    let p = SimplePolygon2d::from_vertices(v.clone());
    let s = shoelace(&v);
    c.eq("signed area", p.signed_area() * c.int(2), s);
    let a = Polygon2d::area(&p);
    c.le("area >= 0", T::zero(), a);
    c.eq("area", a * a * c.int(4), s * s);
    if s > T::zero() {
        c.holds("counter-clockwise", p.orientation() == Orientation::Counterclockwise);
    }
    if s < T::zero() {
        c.holds("clockwise", p.orientation() == Orientation::Clockwise);
    }
    c.holds("edges", p.num_edges() == n && p.edge_iter().count() == n && p.get_edge(n).is_none());
    for (i, e) in p.edge_iter().enumerate() {
        let g = p.get_edge(i).unwrap();
        c.eq("edge start", e.start().x, v[i].x);
        c.eq("edge end", e.end().y, v[(i + 1) % n].y);
        c.eq("edge start (by index)", g.start().y, v[i].y);
        c.eq("edge end (by index)", g.end().x, v[(i + 1) % n].x);
    }
}

fn polygon3_area<T: Real, C: Cx<T>>(c: &mut C, n: usize) {
    let v: Vec<Point3<T>> = (0..n).map(|i| pt3(c, &format!("v{i}"), B)).collect();
    let p = SimplePolygon3d::from_vertices(v.clone());
    let (s, a) = (area3(&v), p.area_vector());
    for i in 0..3 {
        c.eq("area vector", a[i] * c.int(2), s[i]);
    }
    let m = p.area();
    c.le("area >= 0", T::zero(), m);
    c.eq("area", m * m * c.int(4), s.norm_squared());
}

fn det3<T: Real>(a: &Vector3<T>, b: &Vector3<T>, c: &Vector3<T>) -> T {
    a.cross(b).dot(c)
}

fn tet_volume<T: Real, C: Cx<T>>(c: &mut C) {
    let v = [pt3(c, "a", B), pt3(c, "b", B), pt3(c, "c", B), pt3(c, "d", B)];
    let det = det3(&(v[1] - v[0]), &(v[2] - v[0]), &(v[3] - v[0]));
    for k in [[0, 1, 2], [0, 3, 1], [1, 3, 2], [0, 2, 3]] {
        c.assume_lt(T::zero(), (v[k[1]] - v[k[0]]).cross(&(v[k[2]] - v[k[0]])).norm_squared());
    }
    let vol = Tetrahedron::from_vertices(v).compute_volume();
    c.le("volume >= 0", T::zero(), vol);
    c.eq("tetrahedron volume", vol * vol * c.int(36), det * det);
}

/// Parallelepipeds: arbitrary corner and edge vectors, so that all faces are planar.
fn hex_volume<T: Real, C: Cx<T>>(c: &mut C) {
    let o = pt3(c, "o", B);
    let (x, y, z) = (vec3(c, "x", B), vec3(c, "y", B), vec3(c, "z", B));
    for (a, b) in [(x, y), (x, z), (y, z)] {
        c.assume_lt(T::zero(), a.cross(&b).norm_squared());
    }
    let h = Hexahedron::from_vertices([o, o + x, o + x + y, o + y, o + z, o + x + z, o + x + y + z, o + y + z]);
    let vol = h.compute_volume();
    c.le("volume >= 0", T::zero(), vol);
    let d = det3(&x, &y, &z);
    c.eq("parallelepiped volume", vol * vol, d * d);
}

fn reference<T: Real, C: Cx<T>>(c: &mut C) {
    let t = Tetrahedron::<T>::reference().compute_volume();
    c.eq("reference tetrahedron volume", t, c.frac(4, 3));
    let h = Hexahedron::<T>::reference().compute_volume();
    c.eq("reference hexahedron volume", h, c.int(8));
}

/// Frustum-like hexahedra with planar faces: bottom and top are axis-aligned rectangles.
fn hex_frustum<T: Real, C: Cx<T>>(c: &mut C) {
    let (a, b, s, h) = (c.var("a", 0.5, 8.0), c.var("b", 0.5, 8.0), c.var("s", 0.25, 2.0), c.var("h", 0.5, 8.0));
    let z = T::zero();
    let q = |x: T, y: T, w: T| Point3::new(x, y, w);
    let v = [
        q(-a, -b, z), q(a, -b, z), q(a, b, z), q(-a, b, z),
        q(-a * s, -b * s, h), q(a * s, -b * s, h), q(a * s, b * s, h), q(-a * s, b * s, h),
    ];
    let vol = Hexahedron::from_vertices(v).compute_volume();
    c.eq("frustum volume", vol * c.int(3), h * a * b * c.int(4) * (T::one() + s + s * s));
}

pub fn list(v: &mut Vec<Harness>) {
    h!(v, "P03", "clip_tri", Quick, "arbitrary triangle x arbitrary half-plane", |c| clip_tri(c));
    h!(v, "P03", "clip_shape", Quick, "concrete convex polygons (3-6 sides) x arbitrary half-plane", |c| clip_shape(c));
    h!(v, "P03", "clip_quad", Thorough, "arbitrary convex quad x arbitrary half-plane", |c| clip_quad(c));
    h!(v, "P03", "clip_member", Quick, "concrete convex polygons x half-planes in 5 directions at any position: membership", |c| clip_member(c));
    h!(v, "P03", "contains", Quick, "contains_point/half_planes of arbitrary triangles", |c| contains(c, true));
    h!(v, "P03", "contains_shape", Quick, "contains_point/half_planes of concrete convex polygons", |c| contains(c, false));
    h!(v, "P03", "half_planes", Quick, "half_planes of arbitrary convex quads", |c| half_planes(c));
    h!(v, "P03", "clip_poly", Quick, "polygon x translated polygon", |c| clip_poly(c, &[(0, 0), (1, 0)]));
    h!(v, "P03", "clip_poly_more", Thorough, "polygon x translated polygon", |c| clip_poly(c, &[(0, 1), (1, 1), (2, 0), (3, 0)]));
    h!(v, "P03", "clip_seg3", Quick, "arbitrary segment x concrete triangle", |c| clip_seg(c, 0));
    h!(v, "P03", "clip_seg4", Thorough, "arbitrary segment x concrete quad", |c| clip_seg(c, 1));
    h!(v, "P03", "clip_space3", Quick, "3D polygon with 3 vertices x half-space", |c| clip_space(c, 3));
    h!(v, "P03", "clip_space4", Quick, "concrete planar 3D polygons with 4-5 vertices x half-space", |c| clip_space(c, 4));
    h!(v, "P03", "triangulate", Quick, "triangulations, up to 6 vertices", |c| triangulate(c, 6));
    h!(v, "P04", "tri_area", Quick, "Triangle2d", |c| tri_area(c));
    h!(v, "P04", "tri3", Quick, "Triangle3d", |c| tri3(c));
    h!(v, "P04", "quad", Quick, "arbitrary simple quads: concave corner, split, area, conversion", |c| quad(c));
    h!(v, "P04", "polygon_area3", Quick, "SimplePolygon2d, 3 vertices", |c| polygon_area(c, 3));
    h!(v, "P04", "polygon_area5", Quick, "SimplePolygon2d, 5 vertices", |c| polygon_area(c, 5));
    h!(v, "P04", "polygon3_area4", Quick, "SimplePolygon3d, 4 vertices", |c| polygon3_area(c, 4));
    h!(v, "P04", "polygon3_area6", Quick, "SimplePolygon3d, 6 vertices", |c| polygon3_area(c, 6));
    h!(v, "P04", "tet_volume", Quick, "arbitrary tetrahedra", |c| tet_volume(c));
    h!(v, "P04", "hex_volume", Quick, "arbitrary parallelepipeds", |c| hex_volume(c));
    h!(v, "P04", "hex_frustum", Quick, "square frusta", |c| hex_frustum(c));
    h!(v, "P04", "reference", Quick, "reference cells", |c| reference(c));
}
