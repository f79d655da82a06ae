//! P24 (procedural meshes), P25 (conversion and refinement), P26 (connectivity and boundary), P27 (reordering and selection).
use super::fe::*;
use super::util::*;
use crate::h;
use fenris::connectivity::*;
use fenris::element::*;
use fenris::geometry::polymesh::PolyMesh3d;
use fenris::geometry::sdf::SignedDistanceFunction2d;
use fenris::geometry::{AxisAlignedBoundingBox, AxisAlignedBoundingBox2d, BoundedGeometry, GeometryCollection};
use fenris::mesh::procedural::*;
use fenris::mesh::refinement::*;
use fenris::mesh::reorder::*;
use fenris::mesh::*;
use nalgebra::allocator::Allocator;
use nalgebra_sparse::pattern::SparsityPattern;
use std::collections::{BTreeMap, BTreeSet};

const B: f64 = 4.0;

fn coords<T: Real, D: DimName>(v: &[OPoint<T, D>]) -> Vec<Vec<T>>
where
    DefaultAllocator: Allocator<T, D>,
{
    v.iter().map(|p| p.coords.iter().copied().collect()).collect()
}
fn ids<C: Connectivity>(c: &[C]) -> Vec<Vec<usize>> {
    c.iter().map(|c| c.vertex_indices().to_vec()).collect()
}
/// Facets of a linear cell with outward orientation, by node count and dimension.
fn facets(cell: &[usize], dim: usize) -> Vec<Vec<usize>> {
    let pick = |f: &[usize]| f.iter().map(|i| cell[*i]).collect::<Vec<_>>();
    match (cell.len(), dim) {
        (n, 2) => (0..n).map(|i| vec![cell[i], cell[(i + 1) % n]]).collect(),
        (4, _) => [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]].iter().map(|f| pick(f)).collect(),
        _ => [[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]].iter().map(|f| pick(f)).collect(),
    }
}
/// The cycle starting at its smallest entry; edges as they are.
fn canon(f: &[usize]) -> Vec<usize> {
    if f.len() == 2 {
        return f.to_vec();
    }
    let k = (0..f.len()).min_by_key(|i| f[*i]).unwrap();
    (0..f.len()).map(|i| f[(k + i) % f.len()]).collect()
}
fn reversed(f: &[usize]) -> Vec<usize> {
    let mut g = f.to_vec();
    g.reverse();
    canon(&g)
}
/// The facets which have no partner of opposite orientation; None if some facet is used more than once per side.
fn free_facets(cells: &[Vec<usize>], dim: usize) -> Option<Vec<Vec<usize>>> {
    let mut count: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
    for cell in cells {
        for f in facets(cell, dim) {
            *count.entry(canon(&f)).or_insert(0) += 1;
        }
    }
    if count.values().any(|k| *k > 1) {
        return None;
    }
    Some(count.keys().filter(|f| !count.contains_key(&reversed(f))).cloned().collect())
}
/// Six times (3D) or twice (2D) the signed volumes at the corners of a cell: all positive for a valid one.
fn corner_volumes<T: Real>(x: &[Vec<T>], cell: &[usize], dim: usize) -> Vec<T> {
    let d = |a: usize, b: usize| x[cell[b]].iter().zip(&x[cell[a]]).map(|(p, q)| *p - *q).collect::<Vec<T>>();
    let det2 = |a: &[T], b: &[T]| a[0] * b[1] - a[1] * b[0];
    let det3 = |a: &[T], b: &[T], c: &[T]| {
        a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])
    };
    match (cell.len(), dim) {
        (n, 2) => (0..n).map(|i| det2(&d(i, (i + 1) % n), &d(i, (i + n - 1) % n))).collect(),
        (4, _) => vec![det3(&d(0, 1), &d(0, 2), &d(0, 3))],
        _ => [[0, 1, 3, 4], [1, 2, 0, 5], [2, 3, 1, 6], [3, 0, 2, 7], [4, 7, 5, 0], [5, 4, 6, 1], [6, 5, 7, 2], [7, 6, 4, 3]]
            .iter()
            .map(|k| det3(&d(k[0], k[1]), &d(k[0], k[2]), &d(k[0], k[3])))
            .collect(),
    }
}
/// Volume of a cell: fans of signed simplices (hexahedra with parallelogram faces only).
fn volume<T: Real>(x: &[Vec<T>], cell: &[usize], dim: usize) -> T {
    let k = corner_volumes(x, cell, dim);
    let n = T::from_i64(match (cell.len(), dim) {
        (3, 2) => 2 * 3,
        (4, 2) => 4,
        (4, _) => 6,
        _ => 8,
    })
    .unwrap();
    k.iter().fold(T::zero(), |s, v| s + *v) / n
}
/// The cells are positively oriented, meet facet to facet and fill the box.
fn tiles_box<T: Real, C: Cx<T>>(c: &mut C, x: &[Vec<T>], cells: &[Vec<usize>], dim: usize, lo: &[T], hi: &[T]) {
    let mut total = T::zero();
    for cell in cells {
        for v in corner_volumes(x, cell, dim) {
            c.lt("cell is positively oriented", T::zero(), v);
        }
        total += volume(x, cell, dim);
    }
    let want = (0..dim).fold(T::one(), |s, i| s * (hi[i] - lo[i]));
    c.eq_tol("cells fill the volume of the box", total, want, 1e-9);
    let free = free_facets(cells, dim);
    c.holds("facets are shared by at most two cells, with opposite orientation", free.is_some());
    let eps = c.lit(1e-9);
    for f in free.unwrap_or_default() {
        let on = (0..dim).any(|i| f.iter().all(|k| (x[*k][i] - lo[i]).abs() < eps) || f.iter().all(|k| (x[*k][i] - hi[i]).abs() < eps));
        c.holds("a facet of only one cell lies on the boundary of the box", on);
    }
    let mut used = vec![false; x.len()];
    cells.iter().flatten().for_each(|i| used[*i] = true);
    c.holds("every vertex is used", used.iter().all(|u| *u));
}

/// All cells are of the same volume; cells of extent h (if given) along every axis.
fn uniform<T: Real, C: Cx<T>>(c: &mut C, x: &[Vec<T>], cells: &[Vec<usize>], dim: usize, h: Option<&[T]>) {
    for cell in cells {
        let (a, b) = (volume(x, cell, dim), volume(x, &cells[0], dim));
        c.eq_tol("cells are of equal volume", a, b, 1e-9);
        for i in 0..h.map_or(0, |_| dim) {
            let v: Vec<T> = cell.iter().map(|k| x[*k][i]).collect();
            let lo = v[1..].iter().fold(v[0], |a, b| if *b < a { *b } else { a });
            for y in v {
                // every coordinate is the lowest or one cell size above it
                let (d, h) = (y - lo, h.unwrap()[i]);
                c.le("cells have the same extent", if d + d < h { d } else { (h - d).abs() }, T::from_f64(1e-9).unwrap());
            }
        }
    }
}
/// Larger numbers of cells, with different numbers along the axes.
fn tilings_large<T: Real, C: Cx<T>>(c: &mut C) {
    let one = c.int(1);
    match c.choose("kind", 5) {
        0 => {
            let (ux, uy, n) = [(7, 4, 2), (1, 9, 3), (13, 1, 1)][c.choose("size", 3)];
            let tl = vec2(c, "top left", B);
            let m = create_rectangular_uniform_quad_mesh_2d(one, ux, uy, n, &tl);
            let (lo, hi) = ([tl.x, tl.y - c.int(uy as i64)], [tl.x + c.int(ux as i64), tl.y]);
            c.holds("counts", m.connectivity().len() == ux * uy * n * n && m.vertices().len() == (ux * n + 1) * (uy * n + 1));
            tiles_box(c, &coords(m.vertices()), &ids(m.connectivity()), 2, &lo, &hi);
            let h = c.frac(1, n as i64);
            uniform(c, &coords(m.vertices()), &ids(m.connectivity()), 2, Some(&[h, h]));
        }
        1 => {
            let n = [5, 12][c.choose("size", 2)];
            let m = create_unit_square_uniform_tri_mesh_2d::<T>(n);
            tiles_box(c, &coords(m.vertices()), &ids(m.connectivity()), 2, &[T::zero(); 2], &[one; 2]);
            let h = c.frac(1, n as i64);
            uniform(c, &coords(m.vertices()), &ids(m.connectivity()), 2, Some(&[h, h]));
        }
        2 => {
            let n = [5, 12][c.choose("size", 2)];
            let m = create_unit_square_uniform_quad_mesh_2d::<T>(n);
            tiles_box(c, &coords(m.vertices()), &ids(m.connectivity()), 2, &[T::zero(); 2], &[one; 2]);
            let h = c.frac(1, n as i64);
            uniform(c, &coords(m.vertices()), &ids(m.connectivity()), 2, Some(&[h, h]));
        }
        k => {
            let (u, n): ([usize; 3], usize) = [([4, 2, 3], 1), ([1, 5, 2], 2), ([2, 1, 6], 1)][c.choose("size", 3)];
            let hi = u.map(|k| c.int(k as i64));
            let h = c.frac(1, n as i64);
            if k == 3 {
                let m = create_rectangular_uniform_hex_mesh(one, u[0], u[1], u[2], n);
                c.holds("counts", m.connectivity().len() == u.iter().product::<usize>() * n * n * n && m.vertices().len() == u.iter().map(|k| k * n + 1).product::<usize>());
                tiles_box(c, &coords(m.vertices()), &ids(m.connectivity()), 3, &[T::zero(); 3], &hi);
                uniform(c, &coords(m.vertices()), &ids(m.connectivity()), 3, Some(&[h; 3]));
            } else {
                let m = create_rectangular_uniform_tet_mesh(one, u[0], u[1], u[2], n);
                tiles_box(c, &coords(m.vertices()), &ids(m.connectivity()), 3, &[T::zero(); 3], &hi);
                uniform(c, &coords(m.vertices()), &ids(m.connectivity()), 3, None);
            }
        }
    }
}

// ---- P24 ----

fn quads<T: Real, C: Cx<T>>(c: &mut C) {
    let (ux, uy, n) = (1 + c.choose("units x", 3), 1 + c.choose("units y", 3), 1 + c.choose("cells per unit", 3));
    let len = [(1, 1), (3, 4), (5, 1)][c.choose("unit length", 3)];
    let len = c.frac(len.0, len.1);
    let tl = vec2(c, "top left", B);
    let m = create_rectangular_uniform_quad_mesh_2d(len, ux, uy, n, &tl);
    let lo = [tl.x, tl.y - len * c.int(uy as i64)];
    let hi = [tl.x + len * c.int(ux as i64), tl.y];
    c.holds("cell and vertex counts", m.connectivity().len() == ux * uy * n * n && m.vertices().len() == (ux * n + 1) * (uy * n + 1));
    tiles_box(c, &coords(m.vertices()), &ids(m.connectivity()), 2, &lo, &hi);
    let h = len / c.int(n as i64);
    uniform(c, &coords(m.vertices()), &ids(m.connectivity()), 2, Some(&[h, h]));
    let t = m.clone().split_into_triangles();
    c.holds("two triangles per quad", t.connectivity().len() == 2 * m.connectivity().len());
    tiles_box(c, &coords(t.vertices()), &ids(t.connectivity()), 2, &lo, &hi);
}
fn boxes<T: Real, C: Cx<T>>(c: &mut C, max: usize, tets: bool) {
    let u = [0, 1, 2].map(|i| 1 + c.choose(&format!("units {i}"), max));
    let n = 1 + c.choose("cells per unit", 2);
    let (x, cells, hi) = if tets {
        let len = c.var("unit length", 0.25, 8.0);
        let m = create_rectangular_uniform_tet_mesh(len, u[0], u[1], u[2], n);
        (coords(m.vertices()), ids(m.connectivity()), u.map(|k| len * c.int(k as i64)))
    } else {
        let len = c.frac(3, 4);
        let m = create_rectangular_uniform_hex_mesh(len, u[0], u[1], u[2], n);
        c.holds("cell and vertex counts", m.connectivity().len() == u.iter().product::<usize>() * n * n * n && m.vertices().len() == u.iter().map(|k| k * n + 1).product::<usize>());
        (coords(m.vertices()), ids(m.connectivity()), u.map(|k| len * c.int(k as i64)))
    };
    tiles_box(c, &x, &cells, 3, &[T::zero(); 3], &hi);
    let h = hi[0] / c.int((u[0] * n) as i64);
    let h = [h; 3];
    uniform(c, &x, &cells, 3, if tets { None } else { Some(&h) });
}
fn units<T: Real, C: Cx<T>>(c: &mut C) {
    let n = c.choose("cells", 5);
    let (z, o) = ([T::zero(); 3], [T::one(); 3]);
    let q = create_unit_square_uniform_quad_mesh_2d::<T>(n);
    let t = create_unit_square_uniform_tri_mesh_2d::<T>(n);
    let (k, tet) = (n.min(3), n.min(2));
    let h = create_unit_box_uniform_hex_mesh_3d::<T>(k);
    let e = create_unit_box_uniform_tet_mesh_3d::<T>(tet);
    if n == 0 {
        let empty = q.connectivity().is_empty() && t.connectivity().is_empty() && h.connectivity().is_empty() && e.connectivity().is_empty();
        c.holds("no cells", empty && q.vertices().is_empty() && t.vertices().is_empty() && h.vertices().is_empty() && e.vertices().is_empty());
        return;
    }
    c.holds("counts", q.connectivity().len() == n * n && t.connectivity().len() == 2 * n * n && h.connectivity().len() == k * k * k);
    tiles_box(c, &coords(q.vertices()), &ids(q.connectivity()), 2, &z, &o);
    tiles_box(c, &coords(t.vertices()), &ids(t.connectivity()), 2, &z, &o);
    tiles_box(c, &coords(h.vertices()), &ids(h.connectivity()), 3, &z, &o);
    tiles_box(c, &coords(e.vertices()), &ids(e.connectivity()), 3, &z, &o);
}
/// Every point of the box lies in a cell, and off the cell boundaries in one only.
fn members<T: Real, C: Cx<T>>(c: &mut C, which: usize) {
    let (x, cells, dim): (Vec<Vec<T>>, _, _) = match which {
        0 => {
            let m = create_unit_square_uniform_tri_mesh_2d::<T>(2);
            (coords(m.vertices()), ids(m.connectivity()), 2)
        }
        1 => {
            let m = create_unit_square_uniform_quad_mesh_2d::<T>(3);
            (coords(m.vertices()), ids(m.connectivity()), 2)
        }
        _ => {
            let m = create_unit_box_uniform_tet_mesh_3d::<T>(1);
            (coords(m.vertices()), ids(m.connectivity()), 3)
        }
    };
    let p: Vec<T> = (0..dim).map(|i| c.var(&format!("p{i}"), 0.0, 1.0)).collect();
    let mut pts = x.clone();
    pts.push(p);
    let (mut closed, mut open) = (0, 0);
    for cell in &cells {
        let (mut inside, mut strict) = (true, true);
        for f in facets(cell, dim) {
            let mut s = f.clone();
            s.push(pts.len() - 1);
            let v = if dim == 2 { corner_volumes(&pts, &s, 2)[0] } else { -corner_volumes(&pts, &s, 3)[0] };
            if v < T::zero() {
                inside = false;
                strict = false;
                break;
            }
            if v == T::zero() {
                strict = false;
            }
        }
        closed += inside as usize;
        open += strict as usize;
    }
    c.holds("every point of the domain lies in a cell", closed >= 1);
    c.holds("cell interiors do not overlap", open <= 1 && (open == 0 || closed == 1));
}
/// A linear level set with arbitrary offset on a fixed box.
struct Plane<T: Real> {
    n: Vector2<T>,
    d: T,
    bb: AxisAlignedBoundingBox2d<T>,
}
impl<T: Real> SignedDistanceFunction2d<T> for Plane<T> {
    fn eval(&self, x: &Point2<T>) -> T {
        self.n.dot(&x.coords) - self.d
    }
    fn gradient(&self, _: &Point2<T>) -> Option<Vector2<T>> {
        Some(self.n)
    }
}
impl<T: Real> BoundedGeometry<T> for Plane<T> {
    type Dimension = U2;
    fn bounding_box(&self) -> AxisAlignedBoundingBox2d<T> {
        self.bb.clone()
    }
}
fn voxels<T: Real, C: Cx<T>>(c: &mut C) {
    let bb = AxisAlignedBoundingBox::new(Point2::new(c.int(-1), c.frac(1, 2)), Point2::new(c.int(2), c.frac(5, 2)));
    let size = [(5, 1), (1, 1), (7, 10)][c.choose("cell size", 3)];
    let size = c.frac(size.0, size.1);
    let m = voxelize_bounding_box_2d(&bb, size);
    let mbb = m.bounding_box();
    for i in 0..2 {
        c.lt("the mesh covers the box", mbb.min()[i], bb.min()[i]);
        c.lt("the mesh covers the box", bb.max()[i], mbb.max()[i]);
    }
    let (lo, hi): (Vec<T>, Vec<T>) = (mbb.min().iter().copied().collect(), mbb.max().iter().copied().collect());
    tiles_box(c, &coords(m.vertices()), &ids(m.connectivity()), 2, &lo, &hi);
    for e in m.cell_iter() {
        let b = e.bounding_box();
        let (ex, ey) = (b.extents().x, b.extents().y);
        c.le_tol("cells are no larger than requested", ex, size, 1e-9);
        c.eq_tol("cells are square", ex, ey, 1e-9);
    }
}
fn sdf_mesh<T: Real, C: Cx<T>>(c: &mut C) {
    let bb = AxisAlignedBoundingBox::new(Point2::new(T::zero(), T::zero()), Point2::new(c.int(2), c.int(1)));
    let n = [(3, 4), (0, 1), (-4, 3)][c.choose("direction", 3)];
    let n = Vector2::new(c.int(n.0), c.int(n.1)) / c.int(if n.0 == 0 { 1 } else { 5 });
    let s = Plane { n, d: c.var("offset", -4.0, 4.0), bb };
    let size = c.int(1);
    let full = voxelize_bounding_box_2d(&s.bb, size);
    let m = voxelize_sdf_2d(&s, size);
    // cells with a vertex in the domain are kept, in order
    let mut k = 0;
    for quad in full.cell_iter() {
        if quad.0.iter().any(|v| s.eval(v) <= T::zero()) {
            let got = m.get_cell(k);
            c.holds("cells touching the domain are kept", got.is_some());
            if let Some(g) = got {
                for i in 0..4 {
                    same(c, "kept cells are unchanged", &g.0[i].coords, &quad.0[i].coords);
                }
            }
            k += 1;
        }
    }
    c.holds("other cells are removed", m.connectivity().len() == k);
    let tris = m.clone().split_into_triangles();
    let q = approximate_quad_mesh_for_sdf_2d(&s, size);
    let t = approximate_triangle_mesh_for_sdf_2d(&s, size);
    c.holds("same connectivity", q.connectivity() == m.connectivity());
    for (a, b) in q.vertices().iter().zip(m.vertices()) {
        projected(c, &s, a, b);
    }
    let mut k = 0;
    for tri in tris.cell_iter() {
        if tri.0.iter().any(|v| s.eval(v) <= T::zero()) {
            let got = t.get_cell(k);
            c.holds("triangles touching the domain are kept", got.is_some());
            if let Some(g) = got {
                for i in 0..3 {
                    projected(c, &s, &g.0[i], &tri.0[i]);
                }
            }
            k += 1;
        }
    }
    c.holds("other triangles are removed", t.connectivity().len() == k);
}
fn projected<T: Real, C: Cx<T>>(c: &mut C, s: &Plane<T>, a: &Point2<T>, b: &Point2<T>) {
    if s.eval(b) > T::zero() {
        c.eq_tol("outside vertices are moved to the surface", s.eval(a), T::zero(), 1e-9);
        let t = a - b;
        c.eq_tol("along the gradient", t.x * s.n.y - t.y * s.n.x, T::zero(), 1e-9);
    } else {
        same(c, "inside vertices stay", &a.coords, &b.coords);
    }
}

// ---- P25 ----

/// All permutations of 0..n.
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for k in 0..n {
            let mut q = p.clone();
            q.insert(k, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}
/// The 24 rotations of the cube as permutations of the hexahedron's vertices.
fn cube_rotations() -> Vec<Vec<usize>> {
    let pos = |i: usize| -> [i64; 3] {
        let s = [[-1, -1], [1, -1], [1, 1], [-1, 1]][i % 4];
        [s[0], s[1], if i < 4 { -1 } else { 1 }]
    };
    let mut out = vec![];
    for p in perms(3) {
        let even = [[0, 1, 2], [1, 2, 0], [2, 0, 1]].iter().any(|q| q[..] == p[..]);
        for m in 0..8 {
            let sgn: Vec<i64> = (0..3).map(|i| if m >> i & 1 == 1 { -1 } else { 1 }).collect();
            if (sgn.iter().product::<i64>() == 1) == even {
                out.push((0..8).map(|i| (0..8).find(|j| (0..3).all(|k| pos(*j)[k] == sgn[k] * pos(i)[p[k]])).unwrap()).collect());
            }
        }
    }
    out
}
fn tri_pair(k: usize) -> Vec<Vec<usize>> {
    let p = &perms(3)[k];
    let second = [2, 1, 3];
    vec![vec![0, 1, 2], p.iter().map(|i| second[*i]).collect()]
}
fn tet_pair(k: usize) -> Vec<Vec<usize>> {
    let p = &perms(4)[k];
    let second = [2, 1, 3, 4];
    vec![vec![0, 1, 2, 3], p.iter().map(|i| second[*i]).collect()]
}
fn quad_pair(k: usize) -> Vec<Vec<usize>> {
    // all rotations, and reflections
    let second = [1, 4, 5, 2];
    let r = k % 4;
    let q: Vec<usize> = (0..4).map(|i| second[if k < 4 { (i + r) % 4 } else { (r + 4 - i) % 4 }]).collect();
    vec![vec![0, 1, 2, 3], q]
}
fn hex_pair(k: usize) -> Vec<Vec<usize>> {
    let second = [1, 8, 9, 2, 5, 10, 11, 6];
    vec![(0..8).collect(), cube_rotations()[k].iter().map(|i| second[*i]).collect()]
}
fn sym_points<T: Real, D: DimName, C: Cx<T>>(c: &mut C, n: usize) -> Vec<OPoint<T, D>>
where
    DefaultAllocator: Allocator<T, D>,
{
    (0..n).map(|i| ptn::<T, D, C>(c, &format!("v{i}"), B)).collect()
}
macro_rules! conversions {
    ($($n:ident $d:ident $from:ident $to:ident $pair:ident $pairs:expr, $verts:expr, $one:expr, $two:expr, $conv:expr;)*) => {$(
        /// The converted mesh has the same geometry and shares exactly the nodes on shared vertices, edges and faces.
        fn $n<T: Real, C: Cx<T>>(c: &mut C) {
            let mut cells = $pair(c.choose("pair", $pairs));
            if c.choose("cells", 2) == 0 {
                cells.truncate(1);
            }
            let two = cells.len() == 2;
            let used = 1 + cells.iter().flatten().copied().max().unwrap();
            let verts = sym_points::<T, $d, C>(c, used);
            let conn: Vec<$from> = cells.iter().map(|i| $from(std::array::from_fn(|k| i[k]))).collect();
            let m = Mesh::<T, $d, $from>::from_vertices_and_connectivity(verts, conn);
            let f: fn(&Mesh<T, $d, $from>) -> Mesh<T, $d, $to> = $conv;
            let new = f(&m);
            c.holds("one cell per cell", new.connectivity().len() == cells.len());
            let xi = ptn::<T, $d, C>(c, "xi", 1.0);
            for k in 0..cells.len() {
                let old_e = m.connectivity()[k].element(m.vertices()).unwrap();
                let new_e = new.connectivity()[k].element(new.vertices()).unwrap();
                same(c, "same geometry", &new_e.map_reference_coords(&xi).coords, &old_e.map_reference_coords(&xi).coords);
                let r = new_e.num_nodes();
                let reference = <<$to as ElementConnectivity<T>>::Element as Default2>::reference_points::<T, C>(c);
                for i in 0..r {
                    let a = &new.vertices()[new.connectivity()[k].vertex_indices()[i]];
                    same(c, "node position", &a.coords, &old_e.map_reference_coords(&reference[i]).coords);
                }
            }
            c.holds("exactly the shared nodes are shared", new.vertices().len() == if two { $two } else { $one });
            let mut seen = vec![false; new.vertices().len()];
            new.connectivity().iter().flat_map(|c| c.vertex_indices().to_vec()).for_each(|i| seen[i] = true);
            c.holds("every vertex is used", seen.iter().all(|s| *s));
        }
    )*};
}
/// Node positions of the reference elements.
trait Default2 {
    type Dim: DimName;
    fn reference_points<T: Real, C: Cx<T>>(c: &mut C) -> Vec<OPoint<T, Self::Dim>>
    where
        DefaultAllocator: Allocator<T, Self::Dim>;
}
macro_rules! refpts {
    ($($e:ident $d:ident;)*) => {$(
        impl<S: Real> Default2 for $e<S> {
            type Dim = $d;
            fn reference_points<T: Real, C: Cx<T>>(_: &mut C) -> Vec<OPoint<T, $d>> {
                // node k is where basis function k is one (P07)
                $e::<T>::reference().vertices().to_vec()
            }
        }
    )*};
}
refpts! { Tri6d2Element U2; Quad9d2Element U2; Tet10Element U3; Tet20Element U3; Hex20Element U3; Hex27Element U3; Tet4Element U3; }
conversions! {
    tri6 U2 Tri3d2Connectivity Tri6d2Connectivity tri_pair 6, 4, 6, 9, |m| m.clone().into();
    quad9 U2 Quad4d2Connectivity Quad9d2Connectivity quad_pair 8, 6, 9, 15, |m| m.clone().into();
    tet10 U3 Tet4Connectivity Tet10Connectivity tet_pair 24, 5, 10, 14, |m| m.into();
    tet20 U3 Tet4Connectivity Tet20Connectivity tet_pair 24, 5, 20, 30, |m| m.into();
    hex20 U3 Hex8Connectivity Hex20Connectivity hex_pair 24, 12, 20, 32, |m| m.into();
    hex27 U3 Hex8Connectivity Hex27Connectivity hex_pair 24, 12, 27, 45, |m| m.into();
}
/// Nodes of a conversion of a larger mesh: per vertex, edge, face and cell.
macro_rules! grids {
    ($c:ident $d:ident $($from:ident $to:ident $make:expr, $edges:expr, $count:expr, $conv:expr;)*) => {$({
        let full: Mesh<T, $d, $from> = $make;
        let n = full.vertices().len();
        // scattered numbers (the steps are coprime to the numbers of vertices)
        let step = [1, 11, 23][$c.choose("numbering", 3)];
        $c.holds("a numbering", n % 11 != 0 && n % 23 != 0);
        let mut verts = full.vertices().to_vec();
        for (i, v) in full.vertices().iter().enumerate() {
            verts[i * step % n] = v.clone();
        }
        let mut conn: Vec<$from> = full.connectivity().to_vec();
        conn.iter_mut().for_each(|k| k.vertex_indices_mut().iter_mut().for_each(|i| *i = *i * step % n));
        let m = Mesh::<T, $d, $from>::from_vertices_and_connectivity(verts, conn);
        let f: fn(&Mesh<T, $d, $from>) -> Mesh<T, $d, $to> = $conv;
        let new = f(&m);
        $c.holds("one cell per cell", new.connectivity().len() == m.connectivity().len());
        let reference = <<$to as ElementConnectivity<T>>::Element as Default2>::reference_points::<T, C>($c);
        let (mut edges, mut faces, mut used) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        for (old_k, new_k) in m.connectivity().iter().zip(new.connectivity()) {
            let e = old_k.element(m.vertices()).unwrap();
            for (i, r) in new_k.vertex_indices().iter().zip(&reference) {
                used.insert(*i);
                same($c, "node position", &new.vertices()[*i].coords, &e.map_reference_coords(r).coords);
            }
            let v = old_k.vertex_indices();
            let list: &[(usize, usize)] = &$edges;
            edges.extend(list.iter().map(|(a, b)| (v[*a].min(v[*b]), v[*a].max(v[*b]))));
            for f in facets(v, $d::dim()) {
                let mut f = f;
                f.sort();
                faces.insert(f);
            }
        }
        let count: fn(usize, usize, usize, usize) -> usize = $count;
        $c.holds("exactly the shared nodes are shared", new.vertices().len() == count(n, edges.len(), faces.len(), m.connectivity().len()));
        $c.holds("every vertex is used", used.len() == new.vertices().len());
    })*};
}
const HEX_EDGES: [(usize, usize); 12] = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)];
const TET_EDGES: [(usize, usize); 6] = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
/// Conversions of larger meshes, whose vertices are numbered in a scattered way.
fn convert_large<T: Real, C: Cx<T>>(c: &mut C) {
    match c.choose("conversion", 6) {
        0 => grids! { c U2 Tri3d2Connectivity Tri6d2Connectivity create_unit_square_uniform_tri_mesh_2d(6), [(0, 1), (1, 2), (2, 0)], |v, e, _, _| v + e, |m| m.clone().into(); },
        1 => grids! { c U2 Quad4d2Connectivity Quad9d2Connectivity create_unit_square_uniform_quad_mesh_2d(5), [(0, 1), (1, 2), (2, 3), (3, 0)], |v, e, _, k| v + e + k, |m| m.clone().into(); },
        2 => grids! { c U3 Tet4Connectivity Tet10Connectivity tets(2), TET_EDGES, |v, e, _, _| v + e, |m| m.into(); },
        3 => grids! { c U3 Tet4Connectivity Tet20Connectivity tets(2), TET_EDGES, |v, e, f, _| v + 2 * e + f, |m| m.into(); },
        4 => grids! { c U3 Hex8Connectivity Hex20Connectivity create_unit_box_uniform_hex_mesh_3d(3), HEX_EDGES, |v, e, _, _| v + e, |m| m.into(); },
        _ => grids! { c U3 Hex8Connectivity Hex27Connectivity create_unit_box_uniform_hex_mesh_3d(3), HEX_EDGES, |v, e, f, k| v + e + f + k, |m| m.into(); },
    }
}
fn tets<T: Real>(n: usize) -> Tet4Mesh<T> {
    create_unit_box_uniform_tet_mesh_3d(n)
}
fn tet10_to_tet4<T: Real, C: Cx<T>>(c: &mut C) {
    let cells = tet_pair(c.choose("pair", 24));
    let verts = sym_points::<T, U3, C>(c, 5);
    let conn: Vec<_> = cells.iter().map(|i| Tet4Connectivity(std::array::from_fn(|k| i[k]))).collect();
    let m = Tet4Mesh::from_vertices_and_connectivity(verts, conn);
    let back = Tet4Mesh::from(&Tet10Mesh::from(&m));
    c.holds("sizes", back.vertices().len() == 5 && back.connectivity().len() == 2);
    for k in 0..2 {
        for i in 0..4 {
            same(c, "corner", &back.vertices()[back.connectivity()[k].0[i]].coords, &m.vertices()[cells[k][i]].coords);
        }
    }
}
fn hex_to_tet<T: Real, C: Cx<T>>(c: &mut C) {
    // cubes on a lattice; the second one numbered in any rotation and attached in any direction
    let k = c.choose("rotation", 24);
    let shift = vec3(c, "shift", B);
    let base = create_rectangular_uniform_hex_mesh::<T>(c.int(2), 2, 1, 1, 1);
    let mut conn = base.connectivity().to_vec();
    let r = &cube_rotations()[k];
    let which = c.choose("rotated cell", 2);
    conn[which] = Hex8Connectivity(std::array::from_fn(|i| base.connectivity()[which].0[r[i]]));
    // shear the lattice
    let v = base.vertices().iter().map(|p| Point3::new(p.x + p.y * c.frac(1, 4), p.y, p.z - p.x * c.frac(1, 8)) + shift).collect();
    let m = HexMesh::from_vertices_and_connectivity(v, conn);
    let t = Tet4Mesh::from(&m);
    let x = coords(t.vertices());
    let cells = ids(t.connectivity());
    let mut total = T::zero();
    for cell in &cells {
        let v = corner_volumes(&x, cell, 3)[0];
        c.lt("tetrahedron is positively oriented", T::zero(), v);
        total += v / c.int(6);
    }
    c.eq("volume is kept", total, c.int(16));
    let free = free_facets(&cells, 3);
    c.holds("conforming", free.as_ref().map(|f| f.len()) == Some(20));
    let p = PolyMesh3d::from(&m);
    c.holds("polyhedral mesh", p.num_cells() == 2 && p.num_faces() == 11 && p.vertices().len() == 12);
    c.eq("volume of the polyhedral mesh", p.compute_volume(), c.int(16));
}
/// Tetrahedral cells of a polyhedral mesh become tetrahedra, other cells are refused.
fn poly_to_tet<T: Real, C: Cx<T>>(c: &mut C) {
    let v = sym_points::<T, U3, C>(c, 5);
    let d = (v[1] - v[0]).cross(&(v[2] - v[0])).dot(&(v[3] - v[0]));
    if c.choose("orientation", 2) == 0 {
        c.assume_lt(T::zero(), d);
    } else {
        c.assume_lt(d, T::zero());
    }
    // rotations and reflections of the faces
    let (first, flip) = (c.choose("first face", 4), c.choose("numbering", 6));
    let face = |f: [usize; 3], k: usize| {
        let mut f = [f[k % 3], f[(k + 1) % 3], f[(k + 2) % 3]];
        if k >= 3 {
            f.swap(0, 1);
        }
        f.to_vec()
    };
    let tri = [[0, 1, 2], [0, 1, 3], [1, 2, 3], [0, 2, 3]];
    let mut faces: Vec<Vec<usize>> = (0..4).map(|i| face(tri[(first + i) % 4], (flip + i) % 6)).collect();
    let mut cell = vec![0, 1, 2, 3];
    let mut kind = c.choose("kind", 7);
    match kind {
        0 => {}
        6 => {
            // one face replaced by any three vertices
            let k = c.choose("face", 4);
            let t = c.choose("vertices", 10);
            let t = (0..5).flat_map(|i| (i + 1..5).flat_map(move |j| (j + 1..5).map(move |l| [i, j, l]))).nth(t).unwrap();
            let sorted = |f: &[usize]| f.iter().copied().collect::<BTreeSet<_>>();
            if sorted(&faces[k]) == sorted(&t) {
                kind = 0;
            } else if faces.iter().any(|f| sorted(f) == sorted(&t)) {
                return; // repeats a face
            }
            faces[k] = face(t, c.choose("order", 6));
        }
        1 => cell[1] = 0,
        2 => {
            let k = 2 + c.choose("face", 2);
            let last = faces[k].len() - 1;
            faces[k][last] = 4;
        }
        3 => {
            cell.pop();
        }
        4 => {
            faces.push(vec![0, 1, 4]);
            cell.push(4);
        }
        _ => {
            let k = c.choose("face", 4);
            faces[k].push(4);
        }
    }
    let m = PolyMesh3d::from_poly_data(v.clone(), fenris_nested_vec::NestedVec::from(&faces), fenris_nested_vec::NestedVec::from(&vec![cell]));
    match Tet4Mesh::try_from(&m) {
        Ok(t) => {
            c.holds("a cell which is no tetrahedron is refused", kind == 0);
            let mut i = t.connectivity()[0].0;
            let x: Vec<_> = i.iter().map(|i| t.vertices()[*i]).collect();
            c.lt("positive orientation", T::zero(), (x[1] - x[0]).cross(&(x[2] - x[0])).dot(&(x[3] - x[0])));
            i.sort();
            c.holds("one cell of the same vertices", i == [0, 1, 2, 3] && t.connectivity().len() == 1 && t.vertices().len() == 5);
            for k in 0..5 {
                same(c, "vertices are kept", &t.vertices()[k].coords, &v[k].coords);
            }
        }
        Err(_) => c.holds("tetrahedra are accepted", kind != 0),
    }
}
/// Polyhedral meshes of a mesh: the cells have the faces of the original cells, shared faces are stored once.
fn to_poly<T: Real, C: Cx<T>>(c: &mut C) {
    fn check<T: Real, X: Cx<T>, D: DimName, K: Connectivity>(c: &mut X, m: &Mesh<T, D, K>, p: &fenris::geometry::polymesh::PolyMesh<T, D>)
    where
        DefaultAllocator: Allocator<T, D>,
    {
        for (a, b) in m.vertices().iter().zip(p.vertices()) {
            same(c, "vertices are kept", &a.coords, &b.coords);
        }
        let sorted = |f: &[usize]| {
            let mut f = f.to_vec();
            f.sort();
            f
        };
        let mut all = std::collections::BTreeSet::new();
        c.holds("sizes", p.num_cells() == m.connectivity().len() && p.vertices().len() == m.vertices().len());
        let mut next = 0;
        for (k, cell) in m.connectivity().iter().enumerate() {
            let got = p.get_cell_connectivity(k).unwrap().to_vec();
            c.holds("number of faces", got.len() == cell.num_faces());
            for (i, f) in got.iter().enumerate() {
                let want = cell.get_face_connectivity(i).unwrap().vertex_indices().to_vec();
                let have = p.get_face_connectivity(*f).unwrap().to_vec();
                c.holds("same face", sorted(&have) == sorted(&want));
                if all.insert(sorted(&want)) {
                    c.holds("a new face is stored as it is", have == want && *f == next);
                    next += 1;
                }
            }
        }
        c.holds("shared faces are stored once", p.num_faces() == all.len());
    }
    use fenris::geometry::polymesh::PolyMesh;
    match c.choose("mesh", 3) {
        0 => {
            let mut k = tri_pair(c.choose("pair", 6));
            if c.choose("reversed", 2) == 1 {
                k[1].swap(0, 2);
            }
            let conn = k.iter().map(|i| Tri3d2Connectivity(std::array::from_fn(|j| i[j]))).collect();
            let m = TriangleMesh2d::from_vertices_and_connectivity(sym_points::<T, U2, C>(c, 5), conn);
            check(c, &m, &PolyMesh::from(&m));
        }
        1 => {
            let k = tet_pair(c.choose("pair", 24));
            let conn = k.iter().map(|i| Tet4Connectivity(std::array::from_fn(|j| i[j]))).collect();
            let m = Tet4Mesh::from_vertices_and_connectivity(sym_points::<T, U3, C>(c, 6), conn);
            check(c, &m, &PolyMesh::from(&m));
        }
        _ => {
            let k = hex_pair(c.choose("pair", 24));
            let conn = k.iter().map(|i| Hex8Connectivity(std::array::from_fn(|j| i[j]))).collect();
            let m = HexMesh::from_vertices_and_connectivity(sym_points::<T, U3, C>(c, 12), conn);
            check(c, &m, &PolyMesh::from(&m));
        }
    }
}
fn refine_tris<T: Real, C: Cx<T>>(c: &mut C) {
    let cells = tri_pair(c.choose("pair", 6));
    let times = c.choose("times", 3);
    let verts = sym_points::<T, U2, C>(c, 4);
    let conn: Vec<_> = cells.iter().map(|i| Tri3d2Connectivity(std::array::from_fn(|k| i[k]))).collect();
    let m = TriangleMesh2d::from_vertices_and_connectivity(verts, conn);
    let r = refine_uniformly_repeat(&m, times);
    let f = 4usize.pow(times as u32);
    c.holds("cell and vertex counts", r.connectivity().len() == 2 * f && r.vertices().len() == [4, 9, 25][times]);
    let (x, y) = (coords(m.vertices()), coords(r.vertices()));
    // children are listed parent by parent
    for (k, cell) in r.connectivity().iter().enumerate() {
        let parent = volume(&x, &cells[k / f], 2);
        c.eq("children have equal signed area", volume(&y, &cell.0, 2) * c.int(f as i64), parent);
    }
    // vertices of the original mesh stay corners of their cells
    for k in 0..2 {
        for i in 0..3 {
            let v = &x[cells[k][i]];
            if times == 1 {
                let child = r.connectivity()[4 * k + i].0[i];
                same_slice(c, "corner child", &y[child], v);
            }
        }
    }
    let oriented_alike = free_facets(&cells, 2);
    if let Some(b) = oriented_alike {
        let fr = free_facets(&ids(r.connectivity()), 2);
        c.holds("refinement is conforming", fr.as_ref().map(|f| f.len()) == Some(b.len() << times));
        // where each fine vertex lies on the coarse boundary, read off a mesh with fixed coordinates
        let fixed: Vec<Point2<f64>> = [[0.0, 0.0], [4.0, 1.0], [1.0, 5.0], [6.0, 7.0]].iter().map(|p| Point2::new(p[0], p[1])).collect();
        let conn: Vec<_> = cells.iter().map(|i| Tri3d2Connectivity(std::array::from_fn(|k| i[k]))).collect();
        let rf = refine_uniformly_repeat(&TriangleMesh2d::from_vertices_and_connectivity(fixed.clone(), conn), times);
        if let Some(fr) = fr {
            for e in fr {
                let place = |s: &Vec<usize>, k: usize| {
                    (0..=4).find(|j| (fixed[s[0]] + (fixed[s[1]] - fixed[s[0]]) * (*j as f64 / 4.0) - rf.vertices()[k]).norm() < 1e-9)
                };
                let on = b.iter().find(|s| e.iter().all(|k| place(s, *k).is_some()));
                c.holds("boundary edges come from boundary edges", on.is_some());
                let Some(s) = on else { continue };
                for k in &e {
                    let t = c.frac(place(s, *k).unwrap() as i64, 4);
                    for d in 0..2 {
                        c.eq("boundary vertices lie on the boundary edge", y[*k][d], x[s[0]][d] + (x[s[1]][d] - x[s[0]][d]) * t);
                    }
                }
            }
        }
    }
    let one = refine_uniformly(&m);
    let two = refine_mesh(&one, UniformRefinement);
    if times == 2 {
        c.holds("repetition", two.connectivity().len() == r.connectivity().len());
        for k in 0..32 {
            for i in 0..3 {
                let (a, b) = (two.connectivity()[k].0[i], r.connectivity()[k].0[i]);
                same(c, "repeated refinement", &two.vertices()[a].coords, &r.vertices()[b].coords);
            }
        }
    }
}
fn refine_members<T: Real, C: Cx<T>>(c: &mut C) {
    let v = [(0, 0), (4, 1), (1, 3)].map(|(x, y)| Point2::new(c.int(x), c.int(y))).to_vec();
    let rot = c.choose("rotation", 3);
    let m = TriangleMesh2d::from_vertices_and_connectivity(v, vec![Tri3d2Connectivity([0, 1, 2].map(|i| (i + rot) % 3))]);
    let r = refine_uniformly(&m);
    let p = pt2(c, "p", 5.0);
    let e = m.get_cell(0).unwrap();
    let side = |t: &[Point2<T>; 3], i: usize| (t[(i + 1) % 3] - t[i]).perp(&(p - t[i]));
    for i in 0..3 {
        let s = side(&e.0, i);
        c.assume_le(T::zero(), s);
    }
    let n = r.cell_iter().filter(|t| (0..3).all(|i| side(&t.0, i) >= T::zero())).count();
    let n1 = r.cell_iter().filter(|t| (0..3).all(|i| side(&t.0, i) > T::zero())).count();
    c.holds("children cover the parent", n >= 1);
    c.holds("children do not overlap", n1 <= 1 && (n1 == 0 || n == 1));
}
fn split_concave<T: Real, C: Cx<T>>(c: &mut C) {
    let shift = vec2(c, "shift", B);
    let v: Vec<Point2<T>> = [(0, 0), (4, 0), (1, 1), (0, 4), (6, 6), (7, 1)].map(|(x, y)| Point2::new(c.int(x), c.int(y)) + shift).to_vec();
    let (r, s) = (c.choose("rotation 0", 4), c.choose("rotation 1", 4));
    let q = vec![vec![0, 1, 2, 3], vec![2, 1, 5, 4]];
    let conn = vec![
        Quad4d2Connectivity(std::array::from_fn(|i| q[0][(i + r) % 4])),
        Quad4d2Connectivity(std::array::from_fn(|i| q[1][(i + s) % 4])),
    ];
    let t = QuadMesh2d::from_vertices_and_connectivity(v.clone(), conn).split_into_triangles();
    let (x, y) = (coords(&v), coords(t.vertices()));
    let shoelace = |k: &[usize]| (0..4).fold(T::zero(), |a, i| a + x[k[i]][0] * x[k[(i + 1) % 4]][1] - x[k[i]][1] * x[k[(i + 1) % 4]][0]);
    for k in 0..2 {
        let mut sum = T::zero();
        for i in 0..2 {
            let a = volume(&y, &t.connectivity()[2 * k + i].0, 2);
            c.lt("triangle is positively oriented", T::zero(), a);
            sum += a;
        }
        c.eq("area is kept", sum, shoelace(&q[k]) / c.int(2));
    }
    c.holds("conforming", free_facets(&ids(t.connectivity()), 2).map(|f| f.len()) == Some(6));
}

// ---- P26 ----

macro_rules! faces {
    ($($n:ident $e:ident $conn:ident $count:expr, $corners:expr, $full:expr;)*) => {$(
        /// Faces of a cell: outward, closed, with their mid nodes in place; cell() and indices.
        fn $n<T: Real, C: Cx<T>>(c: &mut C) {
            let nodes: Vec<Vec<T>> = coords($e::<T>::reference().vertices());
            let dim = nodes[0].len();
            let n = nodes.len();
            // global numbering in reverse with gaps
            let id: Vec<usize> = (0..n).map(|i| 3 * (n - i)).collect();
            let conn = $conn(std::array::from_fn(|i| id[i]));
            c.holds("vertex indices", conn.vertex_indices() == id);
            let mut m = conn;
            m.vertex_indices_mut()[0] = 1000;
            c.holds("vertex indices are mutable", m.vertex_indices()[0] == 1000 && m.vertex_indices()[1..] == id[1..]);
            c.holds("number of faces", conn.num_faces() == $count);
            for k in $count..$count + 3 {
                c.holds("no face beyond the last", conn.get_face_connectivity(k).is_none());
            }
            // an arbitrary orientation-preserving affine image of the reference cell
            let a = DMatrix::from_fn(dim, dim, |i, j| c.var(&format!("a{i}{j}"), -B, B));
            let d = det(&a);
            c.assume_lt(T::zero(), d);
            let x: Vec<DVector<T>> = nodes.iter().map(|p| &a * DVector::from_column_slice(p)).collect();
            let mut mid = DVector::from_element(dim, T::zero());
            for p in &x[..$corners] {
                mid += p;
            }
            mid /= c.int($corners);
            let local = |g: usize| id.iter().position(|i| *i == g);
            let mut edges: Vec<(usize, usize)> = vec![];
            let mut used = vec![false; n];
            for k in 0..$count {
                let f = conn.get_face_connectivity(k);
                c.holds("face exists", f.is_some());
                let Some(f) = f else { continue };
                let l: Vec<Option<usize>> = f.vertex_indices().iter().map(|g| local(*g)).collect();
                c.holds("face nodes are cell nodes", l.iter().all(|i| i.is_some()));
                let l: Vec<usize> = l.into_iter().flatten().collect();
                let (corners, mids): (Vec<usize>, Vec<(usize, Vec<usize>)>) = match (dim, l.len()) {
                    (2, 2) => (l.clone(), vec![]),
                    (2, _) => (vec![l[0], l[2]], vec![(l[1], vec![0, 1])]),
                    (_, 3) | (_, 4) => (l.clone(), vec![]),
                    (_, 6) => (l[..3].to_vec(), (0..3).map(|i| (l[3 + i], vec![i, (i + 1) % 3])).collect()),
                    _ => {
                        let mut m: Vec<_> = (0..4).map(|i| (l[4 + i], vec![i, (i + 1) % 4])).collect();
                        if l.len() == 9 {
                            m.push((l[8], vec![0, 1, 2, 3]));
                        }
                        (l[..4].to_vec(), m)
                    }
                };
                corners.iter().chain(mids.iter().map(|m| &m.0)).for_each(|i| used[*i] = true);
                for (m, ends) in mids {
                    let want = ends.iter().fold(DVector::from_element(dim, T::zero()), |s, i| s + &x[corners[*i]]) / c.int(ends.len() as i64);
                    same_slice(c, "mid node of the face", x[m].as_slice(), want.as_slice());
                }
                c.holds("face corners are cell corners", corners.iter().all(|i| *i < $corners));
                // outward: the simplex of the interior point and the face is positive
                let e = |i: usize| &x[corners[i]] - &mid;
                for i in 2..corners.len().max(3) {
                    let cols = if dim == 2 { vec![e(0), e(1)] } else { vec![e(0), e(i - 1), e(i)] };
                    let v = det(&DMatrix::from_columns(&cols));
                    c.lt("faces point outwards", T::zero(), v);
                }
                for i in 0..corners.len() {
                    edges.push((corners[i], corners[(i + 1) % corners.len()]));
                }
            }
            if dim == 2 {
                let mut next: Vec<usize> = edges.iter().step_by(2).map(|e| e.0).collect();
                next.sort();
                c.holds("the edges form the boundary cycle", next == (0..$corners).collect::<Vec<_>>());
            } else {
                let mut s = edges.clone();
                s.sort();
                s.dedup();
                c.holds("the faces form a closed oriented surface", s.len() == edges.len() && edges.iter().all(|(a, b)| edges.contains(&(*b, *a))));
            }
            c.holds("faces use every surface node", used.iter().filter(|u| **u).count() == $full);
        }
    )*};
}
faces! {
    faces_tri3 Tri3d2Element Tri3d2Connectivity 3, 3, 3;
    faces_tri6 Tri6d2Element Tri6d2Connectivity 3, 3, 6;
    faces_quad4 Quad4d2Element Quad4d2Connectivity 4, 4, 4;
    faces_quad9 Quad9d2Element Quad9d2Connectivity 4, 4, 8;
    faces_tet4 Tet4Element Tet4Connectivity 4, 4, 4;
    faces_tet10 Tet10Element Tet10Connectivity 4, 4, 10;
    faces_hex8 Hex8Element Hex8Connectivity 6, 8, 8;
    faces_hex20 Hex20Element Hex20Connectivity 6, 8, 20;
    faces_hex27 Hex27Element Hex27Connectivity 6, 8, 26;
}
macro_rules! cells {
    ($c:ident; $($conn:ident $d:ident $n:expr, $k:expr;)*) => {$({
        let v = (0..3 * $n).map(|i| OPoint::<T, $d>::from(OVector::<T, $d>::from_fn(|r, _| $c.int((i * i + 5 * i + 11 * r) as i64)))).collect::<Vec<_>>();
        let conn = $conn(std::array::from_fn(|i| (7 * i + 3) % (3 * $n)));
        let cell = CellConnectivity::<T, $d>::cell(&conn, &v).unwrap();
        let pts = cell_points(&cell);
        $c.holds("number of cell vertices", pts.len() == $k);
        for i in 0..$k {
            same_slice($c, "cell vertex", &pts[i], v[conn.vertex_indices()[i]].coords.as_slice());
        }
        // indices which are not there
        for i in 0..$k {
            for k in [v.len(), v.len() + 9] {
                let mut off = conn.clone();
                off.vertex_indices_mut()[i] = k;
                $c.holds("no cell without its vertices", CellConnectivity::<T, $d>::cell(&off, &v).is_none());
            }
        }
        // the legacy face visitor
        let mut faces = vec![];
        CellConnectivity::<T, $d>::for_each_face(&conn, |f| faces.push(f.vertex_indices().to_vec()));
        let want: Vec<Vec<usize>> = (0..conn.num_faces()).map(|k| conn.get_face_connectivity(k).unwrap().vertex_indices().to_vec()).collect();
        $c.holds("for_each_face visits every face in order", faces == want);
    })*};
}
/// Vertices of a cell geometry, through its Debug-independent public fields.
trait CellPoints<T> {
    fn points(&self) -> Vec<Vec<T>>;
}
fn cell_points<T, G: CellPoints<T>>(g: &G) -> Vec<Vec<T>> {
    g.points()
}
impl<T: Real> CellPoints<T> for fenris::geometry::LineSegment2d<T> {
    fn points(&self) -> Vec<Vec<T>> {
        coords(&[*self.start(), *self.end()])
    }
}
impl<T: Real, D: DimName> CellPoints<T> for fenris::geometry::Triangle<T, D>
where
    DefaultAllocator: Allocator<T, D>,
{
    fn points(&self) -> Vec<Vec<T>> {
        coords(&self.0)
    }
}
impl<T: Real> CellPoints<T> for fenris::geometry::Quad2d<T> {
    fn points(&self) -> Vec<Vec<T>> {
        coords(&self.0)
    }
}
macro_rules! polyhedron_points {
    ($($g:ident [$($f:expr, $v:expr);*])*) => {$(
        impl<T: Real> CellPoints<T> for fenris::geometry::$g<T> {
            fn points(&self) -> Vec<Vec<T>> {
                use fenris::geometry::{ConvexPolygon3d, ConvexPolyhedron};
                coords(&[$(self.get_face($f).unwrap().get_vertex($v).unwrap()),*])
            }
        }
    )*};
}
polyhedron_points! {
    Tetrahedron [0, 0; 0, 1; 0, 2; 1, 1]
    Hexahedron [0, 0; 0, 1; 0, 2; 0, 3; 1, 0; 1, 1; 3, 0; 3, 1]
}
fn cells<T: Real, C: Cx<T>>(c: &mut C) {
    cells! {c;
        Segment2d2Connectivity U2 2, 2; Tri3d2Connectivity U2 3, 3; Tri3d3Connectivity U3 3, 3; Tri6d2Connectivity U2 6, 3;
        Quad4d2Connectivity U2 4, 4; Quad9d2Connectivity U2 9, 4; Tet4Connectivity U3 4, 4; Tet10Connectivity U3 10, 4;
        Tri6d3Connectivity U3 6, 3; Tet20Connectivity U3 20, 4; Hex8Connectivity U3 8, 8; Hex20Connectivity U3 20, 8; Hex27Connectivity U3 27, 8;
    }
    // lower-dimensional connectivities
    macro_rules! lower {
        ($($f:ident $n:expr, $edges:expr;)*) => {$({
            let conn = $f(std::array::from_fn(|i| 10 + i));
            let e: Vec<Vec<usize>> = (0..conn.num_faces()).map(|k| conn.get_face_connectivity(k).unwrap().vertex_indices().to_vec()).collect();
            let want: Vec<Vec<usize>> = $edges;
            c.holds("edges of a face", e == want.iter().map(|v| v.iter().map(|i| 10 + i).collect::<Vec<_>>()).collect::<Vec<_>>());
            c.holds("no further edge", conn.get_face_connectivity(conn.num_faces()).is_none());
        })*};
    }
    lower! {
        Tri3d3Connectivity 3, vec![vec![0, 1], vec![1, 2], vec![2, 0]];
        Tri6d3Connectivity 6, vec![vec![0, 3, 1], vec![1, 4, 2], vec![2, 5, 0]];
        Quad4d3Connectivity 4, vec![vec![0, 1], vec![1, 2], vec![2, 3], vec![3, 0]];
        Quad8d3Connectivity 8, vec![vec![0, 4, 1], vec![1, 5, 2], vec![2, 6, 3], vec![3, 7, 0]];
        Quad9d3Connectivity 9, vec![vec![0, 4, 1], vec![1, 5, 2], vec![2, 6, 3], vec![3, 7, 0]];
    }
}
/// Access to the indices of a connectivity, and conversions to the linear connectivity.
fn access<T: Real, C: Cx<T>>(c: &mut C) {
    macro_rules! mutable {
        ($($f:ident $n:expr;)*) => {$({
            let mut conn = $f(std::array::from_fn(|i| 10 + i));
            c.holds("indices", conn.vertex_indices() == &conn.0[..]);
            for i in 0..$n {
                conn.vertex_indices_mut()[i] = 50 + 3 * i;
                c.holds("writing an index", (0..$n).all(|j| conn.0[j] == if j <= i { 50 + 3 * j } else { 10 + j }));
            }
        })*};
    }
    mutable! {
        Segment2d1Connectivity 2; Segment2d2Connectivity 2; Segment2d3Connectivity 2; Segment3d2Connectivity 3; Segment3d3Connectivity 3;
        Tri3d2Connectivity 3; Tri3d3Connectivity 3; Tri6d2Connectivity 6; Tri6d3Connectivity 6; Quad4d2Connectivity 4; Quad4d3Connectivity 4;
        Quad8d3Connectivity 8; Quad9d2Connectivity 9; Quad9d3Connectivity 9; Tet4Connectivity 4; Tet10Connectivity 10; Tet20Connectivity 20;
        Hex8Connectivity 8; Hex20Connectivity 20; Hex27Connectivity 27;
    }
    macro_rules! deref {
        ($($f:ident;)*) => {$({
            let conn = $f(std::array::from_fn(|i| 10 + i));
            c.holds("as an array", conn.iter().enumerate().all(|(i, k)| *k == 10 + i) && conn.len() == conn.0.len());
        })*};
    }
    deref! { Tri3d2Connectivity; Tri3d3Connectivity; Tri6d2Connectivity; Tri6d3Connectivity; Quad4d2Connectivity; Quad9d2Connectivity; }
    macro_rules! deref_mut {
        ($($f:ident;)*) => {$({
            let mut conn = $f(std::array::from_fn(|i| 10 + i));
            conn[1] = 99;
            c.holds("as a mutable array", conn.0[1] == 99 && conn.0[0] == 10 && conn.0[2] == 12);
        })*};
    }
    deref_mut! { Tri3d2Connectivity; Tri3d3Connectivity; Quad4d2Connectivity; }
    macro_rules! linear {
        ($($f:ident $g:ident;)*) => {$({
            let conn = $f(std::array::from_fn(|i| 10 + i));
            let lin = $g::from(&conn);
            c.holds("the corners", lin.0.iter().enumerate().all(|(i, k)| *k == 10 + i));
        })*};
    }
    linear! { Quad9d2Connectivity Quad4d2Connectivity; Tri6d2Connectivity Tri3d2Connectivity; Tet10Connectivity Tet4Connectivity; Tet20Connectivity Tet4Connectivity; }
}
/// Boundary of meshes whose cells are any subset of a small mesh.
fn boundary<T: Real, C: Cx<T>, D: DimName, K>(c: &mut C, full: Mesh<T, D, K>, dim: usize)
where
    DefaultAllocator: Allocator<T, D>,
    K: ConnectivityMut,
    K::FaceConnectivity: ConnectivityMut,
{
    let n = full.connectivity().len();
    let keep: Vec<usize> = if n <= 8 {
        let m = c.choose("cells", 1 << n);
        (0..n).filter(|i| m >> i & 1 == 1).collect()
    } else {
        // all, alternate cells, or an irregular choice
        let m = c.choose("cells", 3);
        (0..n).filter(|i| m == 0 || m == 1 && i % 2 == 0 || m == 2 && (i * i * 31 + i * 7) % 11 < 6).collect()
    };
    let conn: Vec<K> = keep.iter().map(|k| full.connectivity()[*k].clone()).collect();
    let m = Mesh::<T, D, K>::from_vertices_and_connectivity(full.vertices().to_vec(), conn);
    let cells = ids(m.connectivity());
    let mut count: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
    let key = |f: &[usize]| {
        let mut s = f.to_vec();
        s.sort();
        s
    };
    for cell in &cells {
        for f in facets(cell, dim) {
            *count.entry(key(&f)).or_insert(0) += 1;
        }
    }
    let mut want: Vec<(Vec<usize>, usize)> = vec![];
    for (k, cell) in cells.iter().enumerate() {
        for f in facets(cell, dim) {
            if count[&key(&f)] == 1 {
                want.push((canon(&f), k));
            }
        }
    }
    want.sort();
    let faces = m.find_boundary_faces();
    let mut got: Vec<(Vec<usize>, usize)> = faces.iter().map(|(f, k, _)| (canon(f.vertex_indices()), *k)).collect();
    got.sort();
    c.holds("boundary faces are the faces of only one cell, outward, with that cell", got == want);
    for (f, k, l) in &faces {
        let same = m.connectivity()[*k].get_face_connectivity(*l).map(|g| g.vertex_indices() == f.vertex_indices());
        c.holds("local index of a boundary face", same == Some(true));
    }
    let mut bc: Vec<usize> = want.iter().map(|w| w.1).collect();
    bc.sort();
    bc.dedup();
    c.holds("boundary cells", m.find_boundary_cells() == bc);
    let mut bv: Vec<usize> = want.iter().flat_map(|w| w.0.clone()).collect();
    bv.sort();
    bv.dedup();
    c.holds("boundary vertices", m.find_boundary_vertices() == bv);
    let s = m.extract_surface_mesh();
    c.holds("surface mesh sizes", s.connectivity().len() == want.len() && s.vertices().len() == bv.len());
    let mut used = vec![0; s.vertices().len()];
    let mut sf: Vec<Vec<usize>> = vec![];
    for f in s.connectivity() {
        f.vertex_indices().iter().for_each(|i| used[*i] += 1);
        sf.push(canon(&f.vertex_indices().iter().map(|i| bv[*i]).collect::<Vec<_>>()));
    }
    sf.sort();
    let mut wf: Vec<Vec<usize>> = want.iter().map(|w| w.0.clone()).collect();
    wf.sort();
    c.holds("surface faces are the boundary faces in the same orientation", sf == wf && used.iter().all(|u| *u > 0));
    for (i, v) in s.vertices().iter().enumerate() {
        same(c, "surface vertex", &v.coords, &m.vertices()[bv[i]].coords);
    }
}
/// Volume of tetrahedra in arbitrary position equals the flux through the extracted surface.
fn flux<T: Real, C: Cx<T>>(c: &mut C) {
    let cells = tet_pair(c.choose("pair", 24));
    // consistently oriented pairs only
    if free_facets(&cells, 3).map(|f| f.len()) != Some(6) {
        return;
    }
    let verts = sym_points::<T, U3, C>(c, 5);
    let x = coords(&verts);
    let m = Tet4Mesh::from_vertices_and_connectivity(verts, cells.iter().map(|i| Tet4Connectivity(std::array::from_fn(|k| i[k]))).collect());
    let s = m.extract_surface_mesh();
    let flux = s.cell_iter().fold(T::zero(), |t, tri| {
        let [a, b, d] = tri.0.map(|p| p.coords);
        t + a.cross(&b).dot(&d) / c.int(6)
    });
    let vol = cells.iter().fold(T::zero(), |t, k| t + volume(&x, k, 3));
    c.eq("enclosed volume of the surface mesh", flux, vol);
}

// ---- P27 ----

fn permutation<T: Real, C: Cx<T>>(c: &mut C) {
    let n = 1 + c.choose("n", 4);
    let v: Vec<usize> = (0..n).map(|i| c.choose(&format!("entry {i}"), n + 2)).collect();
    permutation_ok(c, v)
}
fn permutation_ok<T: Real, C: Cx<T>>(c: &mut C, v: Vec<usize>) {
    let n = v.len();
    let mut s = v.clone();
    s.sort();
    let valid = s.iter().enumerate().all(|(i, k)| i == *k);
    let p = std::panic::catch_unwind(|| Permutation::from_vec(v.clone()));
    c.holds("validity is reported, not a panic", p.is_ok());
    let Ok(p) = p else { return };
    c.holds("exactly permutations are accepted", p.is_ok() == valid);
    let Ok(p) = p else { return };
    let inv = p.inverse();
    c.holds("inverse", (0..n).all(|i| inv.source_index(p.source_index(i)) == i && p.source_index(inv.source_index(i)) == i));
    let data: Vec<T> = (0..n).map(|i| c.var(&format!("x{i}"), -B, B)).collect();
    let out = p.apply_to_slice(&data);
    let back = inv.apply_to_slice(&out);
    let mut r = p.clone();
    r.reverse();
    let rev = r.apply_to_slice(&data);
    c.holds("length", p.len() == n && p.perm() == v && out.len() == n);
    for m in [n - 1, n + 1] {
        c.holds("data of another length is refused", panics(|| drop(p.apply_to_slice(&vec![0; m]))));
    }
    for i in 0..n {
        c.eq("target i holds source perm[i]", out[i], data[v[i]]);
        c.eq("inverse undoes the permutation", back[i], data[i]);
        c.eq("reversal", rev[i], out[n - 1 - i]);
    }
}
/// Permutations of many entries, with one entry replaced by any of a few values.
fn permutation_large<T: Real, C: Cx<T>>(c: &mut C) {
    let n = [31, 97][c.choose("n", 2)];
    let step = [1, 3, 20][c.choose("kind", 3)];
    let mut v: Vec<usize> = (0..n).map(|i| (i * step + 5) % n).collect();
    let at = [0, n / 2, n - 1][c.choose("place", 3)];
    match c.choose("damage", 4) {
        0 => {}
        1 => v[at] = v[(at + 1) % n],
        2 => v[at] = n,
        _ => v[at] = usize::MAX,
    }
    permutation_ok(c, v)
}
fn cuthill<T: Real, C: Cx<T>>(c: &mut C, n: usize) {
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect();
    let mask: Vec<bool> = pairs.iter().map(|(i, j)| c.choose(&format!("{i}-{j}"), 2) == 1).collect();
    let diag = c.choose("diagonal", 2) == 1;
    let linked = |i: usize, j: usize| if i == j { diag } else { mask[pairs.iter().position(|p| *p == (i.min(j), i.max(j))).unwrap()] };
    let (mut off, mut col) = (vec![0], vec![]);
    for i in 0..n {
        col.extend((0..n).filter(|j| linked(i, *j)));
        off.push(col.len());
    }
    let pat = SparsityPattern::try_from_offsets_and_indices(n, n, off, col).unwrap();
    cuthill_ok(c, n, pat, linked)
}
/// Larger graphs: paths, grids, stars, several components, numbered in a scattered way.
fn cuthill_large<T: Real, C: Cx<T>>(c: &mut C) {
    let n = [35, 77][c.choose("vertices", 2)];
    let kind = c.choose("graph", 5);
    let step = [1, 12, 18][c.choose("numbering", 3)];
    let pos = |i: usize| i * step % n;
    let adj = |a: usize, b: usize| match kind {
        0 => a.abs_diff(b) == 1,
        1 => a.abs_diff(b) == 7 || a.abs_diff(b) == 1 && a / 7 == b / 7,
        2 => a.min(b) == 0 && a != b,
        3 => a.abs_diff(b) == 1 && a / 9 == b / 9,
        _ => a == b || (a * b + a + b) % 13 == 4,
    };
    let linked = |i: usize, j: usize| adj(pos(i), pos(j));
    let (mut off, mut col) = (vec![0], vec![]);
    for i in 0..n {
        col.extend((0..n).filter(|j| linked(i, *j)));
        off.push(col.len());
    }
    let pat = SparsityPattern::try_from_offsets_and_indices(n, n, off, col).unwrap();
    cuthill_ok(c, n, pat, linked)
}
fn cuthill_ok<T: Real, C: Cx<T>>(c: &mut C, n: usize, pat: SparsityPattern, linked: impl Fn(usize, usize) -> bool) {
    let p = cuthill_mckee(&pat);
    let mut s = p.perm().to_vec();
    s.sort();
    c.holds("a permutation", s == (0..n).collect::<Vec<_>>());
    let mut r = p.perm().to_vec();
    r.reverse();
    c.holds("the reverse ordering is the reverse", reverse_cuthill_mckee(&pat).perm() == r);
    // breadth-first: the first earlier neighbor's position never decreases within a component
    let o = p.perm();
    let degree = |i: usize| (0..n).filter(|j| linked(i, *j)).count();
    c.holds("the first component starts at a vertex of least degree", (0..n).all(|b| degree(o[0]) <= degree(b)));
    let mut last = 0;
    for k in 1..n {
        let first = (0..k).find(|j| linked(o[*j], o[k]));
        match first {
            Some(j) => {
                c.holds("breadth-first order", j >= last);
                if k > 1 && j == last && j + 1 < k && (0..k - 1).find(|i| linked(o[*i], o[k - 1])) == Some(j) {
                    c.holds("neighbors in order of degree", degree(o[k - 1]) <= degree(o[k]));
                }
                last = j;
            }
            None => {
                c.holds("a new component starts only after the previous one is complete", (0..k).all(|a| (k..n).all(|b| !linked(o[a], o[b]))));
                c.holds("a component starts at a vertex of least degree", (k..n).all(|b| degree(o[k]) <= degree(o[b])));
                last = k;
            }
        }
    }
}
fn reorder<T: Real, C: Cx<T>>(c: &mut C) {
    // up to three triangles on six vertices, chosen among many, possibly disconnected, and isolated vertices
    let all = [[0, 1, 2], [3, 2, 1], [5, 4, 0], [4, 1, 5], [5, 3, 2], [0, 5, 3]];
    let n = c.choose("cells", 4);
    let cells: Vec<[usize; 3]> = (0..n).map(|k| all[c.choose(&format!("cell {k}"), 6)]).collect();
    let v = sym_points::<T, U2, C>(c, 6);
    reorder_ok(c, v, cells)
}
/// Triangles of a larger grid with scattered numbers, and unused vertices.
fn reorder_large<T: Real, C: Cx<T>>(c: &mut C) {
    let (nx, ny) = [(8, 6), (40, 1), (3, 30)][c.choose("grid", 3)];
    let extra = c.choose("unused vertices", 2) * 5;
    let n = (nx + 1) * (ny + 1) + extra;
    let step = [1, 17, 29][c.choose("numbering", 3)];
    let at = |i: usize, j: usize| (j * (nx + 1) + i) * step % n;
    let mut cells = vec![];
    for j in 0..ny {
        for i in 0..nx {
            cells.push([at(i, j), at(i + 1, j), at(i, j + 1)]);
            cells.push([at(i + 1, j), at(i + 1, j + 1), at(i, j + 1)]);
        }
    }
    let k = c.choose("cells rotated", 2) * 11;
    cells.rotate_left(k);
    let t: Vec<T> = (0..2).map(|i| c.var(&format!("t{i}"), -B, B)).collect();
    let v = (0..n).map(|i| Point2::new(t[0] + c.int(i as i64), t[1] * c.int(i as i64))).collect();
    reorder_ok(c, v, cells)
}
fn reorder_ok<T: Real, C: Cx<T>>(c: &mut C, v: Vec<Point2<T>>, cells: Vec<[usize; 3]>) {
    let (nv, n) = (v.len(), cells.len());
    let m = TriangleMesh2d::from_vertices_and_connectivity(v, cells.iter().map(|k| Tri3d2Connectivity(*k)).collect());
    let p = reorder_mesh_par(&m);
    let r = p.apply(&m);
    let sorted = |v: &[usize]| {
        let mut s = v.to_vec();
        s.sort();
        s
    };
    let (vp, cp) = (p.vertex_permutation(), p.connectivity_permutation());
    c.holds("vertex permutation", sorted(vp.perm()) == (0..nv).collect::<Vec<_>>());
    c.holds("cell permutation", sorted(cp.perm()) == (0..n).collect::<Vec<_>>());
    c.holds("sizes", r.vertices().len() == nv && r.connectivity().len() == n);
    for i in 0..nv {
        same(c, "vertex", &r.vertices()[i].coords, &m.vertices()[vp.source_index(i)].coords);
    }
    let mut last = 0;
    for k in 0..n {
        let (a, b) = (r.connectivity()[k].0, cells[cp.source_index(k)]);
        for i in 0..3 {
            c.holds("relabeled", vp.source_index(a[i]) == b[i]);
            same(c, "cell geometry is kept", &r.vertices()[a[i]].coords, &m.vertices()[b[i]].coords);
        }
        let low = *a.iter().min().unwrap();
        c.holds("cells are sorted by their lowest vertex", low >= last);
        last = low;
    }
}
fn keep<T: Real, C: Cx<T>>(c: &mut C) {
    let cells = [[0, 5, 2], [3, 2, 5], [6, 1, 0], [4, 6, 3]];
    let m = TriangleMesh2d::from_vertices_and_connectivity(sym_points::<T, U2, C>(c, 8), cells.iter().map(|k| Tri3d2Connectivity(*k)).collect());
    // any sequence of up to three cells, repetitions included
    let n = c.choose("number", 4);
    let list: Vec<usize> = (0..n).map(|i| c.choose(&format!("cell {i}"), 4)).collect();
    let r = m.keep_cells(&list);
    let mut used: Vec<usize> = list.iter().flat_map(|k| cells[*k]).collect();
    used.sort();
    used.dedup();
    c.holds("only needed vertices and cells", r.vertices().len() == used.len() && r.connectivity().len() == n);
    for (i, u) in used.iter().enumerate() {
        same(c, "vertices keep their order", &r.vertices()[i].coords, &m.vertices()[*u].coords);
    }
    for (k, l) in list.iter().enumerate() {
        for i in 0..3 {
            c.holds("relabeled", used[r.connectivity()[k].0[i]] == cells[*l][i]);
        }
    }
}
fn moves<T: Real, C: Cx<T>>(c: &mut C) {
    let cells = [[0, 1, 2], [2, 1, 3]];
    let v = sym_points::<T, U2, C>(c, 5);
    let m = TriangleMesh2d::from_vertices_and_connectivity(v.clone(), cells.iter().map(|k| Tri3d2Connectivity(*k)).collect());
    let t = vec2(c, "t", B);
    let mut a = m.clone();
    a.translate(&t);
    let b = m.clone().translated(&t);
    let mut d = m.clone();
    d.transform_vertices(|p| *p = Point2::new(p.y, -p.x) * T::from_i64(3).unwrap());
    let mut e = m.clone();
    e.transform_all_vertices(|p| p.reverse());
    for i in 0..5 {
        same(c, "translated", &a.vertices()[i].coords, &(v[i] + t).coords);
        same(c, "translated", &b.vertices()[i].coords, &(v[i] + t).coords);
        same(c, "transformed", &d.vertices()[i].coords, &(Vector2::new(v[i].y, -v[i].x) * c.int(3)));
        same(c, "transformed together", &e.vertices()[i].coords, &v[4 - i].coords);
    }
    let (k, p) = (c.choose("moved vertex", 5), pt2(c, "p", B));
    let mut g = m.clone();
    g.vertices_mut()[k] = p;
    for i in 0..5 {
        same(c, "written vertex", &g.vertices()[i].coords, &if i == k { p } else { v[i] }.coords);
    }
    c.holds("number of geometries", g.num_geometries() == 2 && g.get_geometry(2).is_none());
    for k in 0..2 {
        let t = g.get_geometry(k).unwrap();
        for i in 0..3 {
            same(c, "geometry", &t.0[i].coords, &g.vertices()[cells[k][i]].coords);
        }
    }
    c.holds("connectivity is kept", [&a, &b, &d, &e, &g].iter().all(|x| x.connectivity() == m.connectivity()));
    for k in 0..2 {
        let g = m.get_cell(k).unwrap();
        for i in 0..3 {
            same(c, "cell", &g.0[i].coords, &v[cells[k][i]].coords);
        }
    }
    c.holds("no cell beyond the last", m.get_cell(2).is_none() && m.cell_iter().count() == 2);
}
fn mesh_bounds<T: Real, C: Cx<T>>(c: &mut C) {
    // the bounding box is that of the cells' vertices (an isolated vertex does not count)
    let v = [(0, 0), (3, 1), (1, 2), (9, 9)].map(|(x, y)| Point2::new(c.int(x), c.int(y)));
    let mut v = v.to_vec();
    v.push(pt2(c, "p", B));
    let m = TriangleMesh2d::from_vertices_and_connectivity(v.clone(), vec![Tri3d2Connectivity([0, 1, 2]), Tri3d2Connectivity([1, 4, 2])]);
    let b = m.bounding_box();
    for i in 0..2 {
        for k in [0, 1, 2, 4] {
            c.le("contains the vertices", b.min()[i], v[k][i]);
            c.le("contains the vertices", v[k][i], b.max()[i]);
        }
        c.holds("is tight", [0, 1, 2, 4].iter().any(|k| v[*k][i] == b.min()[i]) && [0, 1, 2, 4].iter().any(|k| v[*k][i] == b.max()[i]));
    }
    let e = TriangleMesh2d::<T>::from_vertices_and_connectivity(v, vec![]).bounding_box();
    same(c, "empty mesh", &e.min().coords, &Vector2::zeros());
    same(c, "empty mesh", &e.max().coords, &Vector2::zeros());
}

/// The polyhedral sphere: contains the ball, stays within the cube around it (the generator itself is f64-only).
fn sphere<T: Real, C: Cx<T>>(c: &mut C) {
    use fenris::geometry::ConvexPolygon3d;
    let n = 1 + c.choose("sweeps", 5);
    let (o, r) = [(Point3::new(0.0, 0.0, 0.0), 1.0), (Point3::new(1.0, -2.0, 3.0), 2.5)][c.choose("ball", 2)];
    let m = create_simple_stupid_sphere(&o, r, n);
    c.holds("one cell", m.num_cells() == 1 && m.find_boundary_faces().len() == m.num_faces() && m.num_faces() >= 6);
    let u = vec3::<T, C>(c, "u", 1.0);
    c.assume_le(u.norm_squared(), c.lit(1.0 - 1e-6));
    for i in 0..m.num_faces() {
        let f = m.get_face(i).unwrap();
        let a = f.compute_area_vector();
        if a.norm() < 1e-9 * r * r {
            continue;
        }
        let (a, x) = (a.normalize(), (f.get_vertex(0).unwrap() - o) / r);
        let mut h = T::zero();
        for k in 0..3 {
            h = h + (u[k] - c.lit(x[k])) * c.lit(a[k]);
        }
        c.le("the ball lies behind every face", h, T::zero());
    }
    for v in m.vertices() {
        c.holds("within the cube", (v - o).amax() <= r * (1.0 + 1e-9));
    }
}

pub fn list() -> Vec<Harness> {
    let mut v = vec![];
    h!(v, "P24", "sphere", Quick, "polyhedral sphere, 1-5 sweeps, every point of the ball", |c| sphere(c));
    h!(v, "P24", "quads", Quick, "rectangles of quads and triangles at any position", |c| quads(c));
    h!(v, "P24", "large", Quick, "larger numbers of cells along the axes", |c| tilings_large(c));
    h!(v, "P24", "hexes", Quick, "boxes of hexahedra, up to 2 units per axis", |c| boxes(c, 2, false));
    h!(v, "P24", "tets", Quick, "boxes of tetrahedra of any size, up to 2 units per axis", |c| boxes(c, 2, true));
    h!(v, "P24", "hexes3", Thorough, "boxes of hexahedra, up to 3 units per axis", |c| boxes(c, 3, false));
    h!(v, "P24", "tets3", Thorough, "boxes of tetrahedra of any size, up to 3 units per axis", |c| boxes(c, 3, true));
    h!(v, "P24", "units", Quick, "unit squares and boxes with 0-4 cells per axis", |c| units(c));
    h!(v, "P24", "members_tri", Quick, "every point of the unit square, triangles", |c| members(c, 0));
    h!(v, "P24", "members_quad", Quick, "every point of the unit square, quads", |c| members(c, 1));
    h!(v, "P24", "members_tet", Quick, "every point of the unit box, tetrahedra", |c| members(c, 2));
    h!(v, "P24", "voxels", Quick, "voxelized boxes", |c| voxels(c));
    h!(v, "P24", "sdf_mesh", Quick, "meshes of level sets at any offset", |c| sdf_mesh(c));
    macro_rules! el {
        ($p:expr, $about:expr, $($f:ident $t:ident),*) => {$( h!(v, $p, stringify!($f), $t, $about, |c| $f(c)); )*};
    }
    el!("P25", "conversion of one and two cells, every relative numbering, any geometry, any reference point",
        tri6 Quick, quad9 Quick, tet10 Quick, tet20 Quick, hex20 Quick, hex27 Quick);
    el!("P25", "conversion of larger meshes", convert_large Quick);
    el!("P25", "conversion back", tet10_to_tet4 Quick);
    el!("P25", "hexahedra to tetrahedra", hex_to_tet Quick);
    el!("P25", "tetrahedral cells of polyhedral meshes", poly_to_tet Quick);
    el!("P25", "polyhedral meshes of a mesh", to_poly Quick);
    el!("P25", "uniform refinement of two triangles", refine_tris Quick);
    el!("P25", "every point of a refined triangle", refine_members Quick);
    el!("P25", "splitting of concave quads", split_concave Quick);
    el!("P26", "faces of an arbitrary affine cell", faces_tri3 Quick, faces_tri6 Quick, faces_quad4 Quick, faces_quad9 Quick, faces_tet4 Quick,
        faces_tet10 Quick, faces_hex8 Quick, faces_hex20 Quick, faces_hex27 Quick);
    el!("P26", "cell geometries and edges of faces", cells Quick);
    el!("P26", "index access and linear connectivities", access Quick);
    h!(v, "P26", "boundary_tri", Quick, "boundary of every subset of 8 triangles", |c| {
        let m = create_unit_square_uniform_tri_mesh_2d(2);
        boundary(c, m, 2)
    });
    h!(v, "P26", "boundary_fan", Quick, "boundary of every subset of four triangles that share one edge and one that shares another", |c| {
        let x: Vec<Point2<_>> = [(0, 0), (1, 0), (0, 1), (0, 2), (1, -1), (2, -1), (2, 1)].iter().map(|p| Point2::new(c.int(p.0), c.int(p.1))).collect();
        let k = [[0, 1, 2], [1, 3, 0], [0, 4, 1], [0, 1, 6], [1, 4, 5]].map(Tri3d2Connectivity).to_vec();
        boundary(c, Mesh::from_vertices_and_connectivity(x, k), 2)
    });
    h!(v, "P26", "boundary_quad", Quick, "boundary of every subset of 6 quads", |c| {
        let (l, t) = (c.int(1), Vector2::zeros());
        boundary(c, create_rectangular_uniform_quad_mesh_2d(l, 3, 2, 1, &t), 2)
    });
    h!(v, "P26", "boundary_hex", Quick, "boundary of every subset of 8 hexahedra", |c| {
        let m = create_unit_box_uniform_hex_mesh_3d(2);
        boundary(c, m, 3)
    });
    h!(v, "P26", "boundary_tet", Quick, "boundary of box meshes of tetrahedra", |c| {
        let m = create_unit_box_uniform_tet_mesh_3d(2);
        boundary(c, m, 3)
    });
    h!(v, "P26", "boundary_large", Quick, "boundary of larger meshes", |c| match c.choose("mesh", 3) {
        0 => {
            let m = create_unit_square_uniform_tri_mesh_2d(9);
            boundary(c, m, 2)
        }
        1 => {
            let (l, t) = (c.int(1), Vector2::zeros());
            boundary(c, create_rectangular_uniform_quad_mesh_2d(l, 11, 7, 1, &t), 2)
        }
        _ => {
            let m = create_unit_box_uniform_hex_mesh_3d(5);
            boundary(c, m, 3)
        }
    });
    el!("P26", "volume as surface flux", flux Quick);
    el!("P27", "permutations of up to 4 entries", permutation Quick);
    h!(v, "P27", "cuthill4", Quick, "Cuthill-McKee on every graph of 4 vertices", |c| cuthill(c, 4));
    h!(v, "P27", "cuthill5", Quick, "Cuthill-McKee on every graph of 5 vertices", |c| cuthill(c, 5));
    h!(v, "P27", "cuthill6", Thorough, "Cuthill-McKee on every graph of 6 vertices", |c| cuthill(c, 6));
    el!("P27", "larger graphs, meshes and permutations", cuthill_large Quick, reorder_large Quick, permutation_large Quick);
    el!("P27", "reordered meshes", reorder Quick);
    el!("P27", "selected cells", keep Quick);
    el!("P27", "transformed meshes", moves Quick);
    el!("P27", "bounding box of a mesh", mesh_bounds Quick);
    v
}
