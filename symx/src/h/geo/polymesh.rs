//! P06: polyhedral meshes.
use crate::h;
use crate::h::util::*;
use fenris_geometry::polymesh::*;
use fenris_geometry::*;
use fenris_nested_vec::NestedVec;
use std::collections::{BTreeMap, BTreeSet};

/// Faces of the unit cubes stacked along x (outward with respect to the first cell that has them).
struct Topo {
    /// coordinates in 0..=2
    pts: Vec<[i64; 3]>,
    faces: Vec<Vec<usize>>,
    cells: Vec<Vec<usize>>,
}

fn add_cell(t: &mut Topo, corners: &[usize], faces: &[&[usize]]) {
    let mut cell = vec![];
    for f in faces {
        let g: Vec<usize> = f.iter().map(|k| corners[*k]).collect();
        let set = |v: &Vec<usize>| v.iter().copied().collect::<BTreeSet<_>>();
        let k = match t.faces.iter().position(|o| set(o) == set(&g)) {
            Some(k) => k,
            None => {
                t.faces.push(g);
                t.faces.len() - 1
            }
        };
        cell.push(k);
    }
    t.cells.push(cell);
}
const CUBE: [[usize; 4]; 6] = [[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]];
const TET: [[usize; 3]; 4] = [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]];

/// n unit cubes along an axis, vertices numbered by a permuting stride.
fn cubes(n: usize, axis: usize, stride: usize) -> Topo {
    let mut t = Topo { pts: vec![], faces: vec![], cells: vec![] };
    let total = 4 * (n + 1);
    let label = |i: usize| (i * stride + 1) % total;
    t.pts = vec![[0; 3]; total];
    for k in 0..=n as i64 {
        for (j, (u, v)) in [(0, 0), (1, 0), (1, 1), (0, 1)].into_iter().enumerate() {
            let mut p = [0; 3];
            p[axis] = k;
            p[(axis + 1) % 3] = u;
            p[(axis + 2) % 3] = v;
            t.pts[label(4 * k as usize + j)] = p;
        }
    }
    for k in 0..n {
        let c: Vec<usize> = (0..8).map(|j| label(4 * k + j)).collect();
        let f: Vec<&[usize]> = CUBE.iter().map(|f| &f[..]).collect();
        add_cell(&mut t, &c, &f);
    }
    t
}
/// One or two tetrahedra sharing a face.
fn tets(n: usize) -> Topo {
    let mut t = Topo { pts: vec![[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]], faces: vec![], cells: vec![] };
    let f: Vec<&[usize]> = TET.iter().map(|f| &f[..]).collect();
    add_cell(&mut t, &[0, 1, 2, 3], &f);
    if n > 1 {
        add_cell(&mut t, &[1, 2, 3, 4], &f);
    } else {
        t.pts.pop();
    }
    t
}
/// A cube with a pyramid on top.
fn house() -> Topo {
    let mut t = cubes(1, 2, 1);
    // the top corners, in order
    let at = |t: &Topo, p: [i64; 3]| t.pts.iter().position(|q| *q == p).unwrap();
    let c = [at(&t, [0, 0, 1]), at(&t, [1, 0, 1]), at(&t, [1, 1, 1]), at(&t, [0, 1, 1]), t.pts.len()];
    t.pts.push([0, 0, 2]);
    let f: Vec<&[usize]> = vec![&[0, 3, 2, 1], &[0, 1, 4], &[1, 2, 4], &[2, 3, 4], &[3, 0, 4]];
    add_cell(&mut t, &c, &f);
    t
}
fn topo(k: usize) -> Topo {
    match k {
        0 => tets(1),
        1 => cubes(1, 0, 1),
        2 => tets(2),
        3 => cubes(2, 1, 5),
        4 => house(),
        5 => cubes(2, 2, 7),
        6 => cubes(3, 0, 3),
        _ => cubes(1, 2, 3),
    }
}
fn nested(v: &[Vec<usize>]) -> NestedVec<usize> {
    NestedVec::from(&v.to_vec())
}
fn build<T: Real>(t: &Topo, x: Vec<Point3<T>>) -> PolyMesh3d<T> {
    PolyMesh::from_poly_data(x, nested(&t.faces), nested(&t.cells))
}
fn concrete<T: Real, C: Cx<T>>(c: &C, t: &Topo) -> Vec<Point3<T>> {
    t.pts.iter().map(|p| Point3::new(c.int(p[0]), c.int(p[1]), c.int(p[2]))).collect()
}
fn free<T: Real, C: Cx<T>>(c: &mut C, n: usize) -> Vec<Point3<T>> {
    (0..n).map(|i| pt3(c, &format!("v{i}"), 64.0)).collect()
}
fn conn<T: Real>(m: &PolyMesh3d<T>) -> (Vec<Vec<usize>>, Vec<Vec<usize>>) {
    (m.face_connectivity_iter().map(|f| f.to_vec()).collect(), m.cell_connectivity_iter().map(|f| f.to_vec()).collect())
}
fn area_vector<T: Real>(x: &[Point3<T>], f: &[usize]) -> Vector3<T> {
    let mut a = Vector3::zeros();
    for i in 0..f.len() {
        a += x[f[i]].coords.cross(&x[f[(i + 1) % f.len()]].coords);
    }
    a
}
fn sorted(v: &[usize]) -> Vec<usize> {
    let mut v = v.to_vec();
    v.sort();
    v
}

fn topology<T: Real, C: Cx<T>>(c: &mut C) {
    let mut t = topo(c.choose("mesh", 7));
    if c.choose("a face of no cell", 2) == 1 {
        let mut f = t.faces[0].clone();
        f.reverse();
        t.faces.push(f);
    }
    let x = free(c, t.pts.len());
    let m = build(&t, x.clone());
    let (f, k) = conn(&m);
    c.holds("data are kept", f == t.faces && k == t.cells && m.num_faces() == t.faces.len() && m.num_cells() == t.cells.len());
    let fc = m.compute_face_cell_connectivity();
    let bnd = m.find_boundary_faces();
    c.holds("one cell list per face", fc.len() == t.faces.len());
    for (i, face) in t.faces.iter().enumerate() {
        let want: Vec<usize> = (0..t.cells.len()).filter(|j| t.cells[*j].contains(&i)).collect();
        c.holds("cells of a face", fc.get(i).unwrap() == &want[..]);
        c.holds("boundary iff at most one cell", bnd.contains(&i) == (want.len() <= 1));
        let g = m.get_face(i).unwrap();
        c.holds("face size", g.num_vertices() == face.len() && g.get_vertex(face.len()).is_none());
        for (j, (v, w)) in face.iter().zip(m.face_vertices(i)).enumerate() {
            same(c, "face vertex", &g.get_vertex(j).unwrap().coords, &x[*v].coords);
            same(c, "face vertex", &w.coords, &x[*v].coords);
        }
    }
    c.holds("nothing beyond", m.get_face(t.faces.len()).is_none() && m.get_cell_connectivity(t.cells.len()).is_none() && m.face_vertices(t.faces.len()).count() == 0);
    let e = PolyMesh3d::<T>::new_empty();
    c.holds("empty mesh", e.vertices().is_empty() && e.num_faces() == 0 && e.num_cells() == 0 && e.find_boundary_faces().is_empty());
    let d = vec3(c, "d", 64.0);
    let mut moved = m.clone();
    moved.translate(&d);
    for (i, p) in m.clone().translated(&d).vertices().iter().enumerate() {
        same(c, "translated", &p.coords, &(x[i] + d).coords);
        same(c, "translate", &moved.vertices()[i].coords, &(x[i] + d).coords);
    }
}

/// Faces repeated in other orders are merged; cells keep referring to the same vertex sets.
fn dedup<T: Real, C: Cx<T>>(c: &mut C) {
    let base = [vec![0, 1, 2], vec![2, 1, 0], vec![0, 1, 3], vec![1, 3, 0], vec![0, 1, 2, 3], vec![3, 0, 2, 1], vec![2, 0, 1]];
    let n = 4;
    let faces: Vec<Vec<usize>> = (0..n).map(|i| base[c.choose(&format!("face {i}"), base.len())].clone()).collect();
    let cells = vec![vec![0, 1, 2, 3], vec![3, 1], vec![]];
    let x = free(c, 4);
    let mut m = PolyMesh::from_poly_data(x.clone(), nested(&faces), nested(&cells));
    m.dedup_faces();
    let (f, k) = conn(&m);
    let distinct: BTreeSet<Vec<usize>> = faces.iter().map(|f| sorted(f)).collect();
    c.holds("every vertex set once", f.len() == distinct.len() && f.iter().map(|f| sorted(f)).collect::<BTreeSet<_>>() == distinct);
    c.holds("faces are among the given ones", f.iter().all(|g| faces.contains(g)));
    c.holds("cell sizes", k.len() == cells.len());
    for (a, b) in k.iter().zip(&cells) {
        c.holds("cells keep their faces", a.len() == b.len() && a.iter().zip(b).all(|(p, q)| sorted(&f[*p]) == sorted(&faces[*q])));
    }
    for (p, q) in m.vertices().iter().zip(&x) {
        same(c, "vertices untouched", &p.coords, &q.coords);
    }
}

fn concatenate<T: Real, C: Cx<T>>(c: &mut C) {
    let n = c.choose("meshes", 4);
    let parts: Vec<(Topo, PolyMesh3d<T>)> = (0..n)
        .map(|i| {
            let k = c.choose(&format!("mesh {i}"), 6);
            let mut t = topo([0, 2, 1, 0, 0, 0][k]);
            // nothing; vertices without faces; faces without cells
            if k == 3 {
                t.pts.clear();
            }
            if k == 3 || k == 4 {
                t.faces.clear();
            }
            if k >= 3 {
                t.cells.clear();
            }
            let x = (0..t.pts.len()).map(|j| pt3(c, &format!("v{i}.{j}"), 64.0)).collect();
            let m = build(&t, x);
            (t, m)
        })
        .collect();
    let all = PolyMesh3d::concatenate(parts.iter().map(|p| &p.1));
    let (f, k) = conn(&all);
    let (mut ov, mut of, mut oc) = (0, 0, 0);
    for (t, m) in &parts {
        for (i, p) in m.vertices().iter().enumerate() {
            same(c, "vertex", &all.vertices()[ov + i].coords, &p.coords);
        }
        for (i, g) in t.faces.iter().enumerate() {
            c.holds("face", f[of + i] == g.iter().map(|v| v + ov).collect::<Vec<_>>());
        }
        for (i, g) in t.cells.iter().enumerate() {
            c.holds("cell", k[oc + i] == g.iter().map(|v| v + of).collect::<Vec<_>>());
        }
        ov += t.pts.len();
        of += t.faces.len();
        oc += t.cells.len();
    }
    c.holds("nothing else", all.vertices().len() == ov && f.len() == of && k.len() == oc);
}

fn keep<T: Real, C: Cx<T>>(c: &mut C) {
    let t = topo([3, 4, 6][c.choose("mesh", 3)]);
    let x = free(c, t.pts.len());
    let m = build(&t, x.clone());
    let n = c.choose("number", t.cells.len() + 1);
    let list: Vec<usize> = (0..n).map(|i| c.choose(&format!("cell {i}"), t.cells.len())).collect();
    let r = m.keep_cells(&list);
    let (f, k) = conn(&r);
    let used_f: BTreeSet<usize> = list.iter().flat_map(|k| t.cells[*k].iter().copied()).collect();
    let used_v: BTreeSet<usize> = used_f.iter().flat_map(|k| t.faces[*k].iter().copied()).collect();
    c.holds("exactly the requested cells", k.len() == n);
    c.holds("exactly their faces", f.len() == used_f.len());
    c.holds("exactly their vertices", r.vertices().len() == used_v.len());
    for (p, v) in r.vertices().iter().zip(&used_v) {
        same(c, "vertices in order", &p.coords, &x[*v].coords);
    }
    let vs: Vec<usize> = used_v.iter().copied().collect();
    for (a, b) in k.iter().zip(&list) {
        let want = &t.cells[*b];
        c.holds("cell size", a.len() == want.len());
        for (p, q) in a.iter().zip(want) {
            c.holds("same face", f[*p].iter().map(|i| vs[*i]).collect::<Vec<_>>() == t.faces[*q]);
        }
    }
}

fn split<T: Real, C: Cx<T>>(c: &mut C) {
    let t = topo(c.choose("mesh", 5));
    let n = c.choose("times", 4);
    let x = free(c, t.pts.len());
    let mut m = build(&t, x.clone());
    m.split_edges_n_times(n);
    let (f, k) = conn(&m);
    c.holds("same cells", k == t.cells && f.len() == t.faces.len());
    let parts = 1usize << n;
    let mut seen: BTreeMap<[usize; 2], Vec<usize>> = BTreeMap::new();
    for (g, old) in f.iter().zip(&t.faces) {
        c.holds("every edge is split", g.len() == old.len() * parts);
        for i in 0..old.len() {
            let (a, b) = (old[i], old[(i + 1) % old.len()]);
            c.holds("old vertices stay", g[i * parts] == a);
            let mut inner: Vec<usize> = (1..parts).map(|j| g[i * parts + j]).collect();
            for (j, v) in inner.iter().enumerate() {
                let w = c.frac(j as i64 + 1, parts as i64);
                same(c, "new vertices divide the edge evenly", &m.vertices()[*v].coords, &(x[a] + (x[b] - x[a]) * w).coords);
            }
            if a > b {
                inner.reverse();
            }
            let e = seen.entry([a.min(b), a.max(b)]).or_insert_with(|| inner.clone());
            c.holds("faces share the new vertices", *e == inner);
        }
    }
    c.holds("one new vertex per part", m.vertices().len() == x.len() + seen.len() * (parts - 1));
    for (p, q) in m.vertices().iter().zip(&x) {
        same(c, "old vertices do not move", &p.coords, &q.coords);
    }
}

/// Image of the concrete mesh under an arbitrary affine map of positive determinant.
fn affine<T: Real, C: Cx<T>>(c: &mut C, t: &Topo) -> (Vec<Point3<T>>, T) {
    let (a, u, v, w) = (pt3(c, "a", 8.0), vec3(c, "u", 8.0), vec3(c, "v", 8.0), vec3(c, "w", 8.0));
    let det = u.cross(&v).dot(&w);
    c.assume_lt(c.frac(1, 64), det);
    (t.pts.iter().map(|p| a + u * c.int(p[0]) + v * c.int(p[1]) + w * c.int(p[2])).collect(), det)
}

/// Volume of a concrete cell times 6 (by tetrahedra from its first vertex).
fn six_volume(t: &Topo, cell: &[usize]) -> i64 {
    let Some(first) = cell.first() else { return 0 };
    let o = t.pts[t.faces[*first][0]];
    let mut s = 0;
    for f in cell {
        let f = &t.faces[*f];
        let mut a = 0;
        for i in 1..f.len() - 1 {
            let d = |k: usize| {
                let p = t.pts[f[k]];
                [p[0] - o[0], p[1] - o[1], p[2] - o[2]]
            };
            let (p, q, r) = (d(0), d(i), d(i + 1));
            a += p[0] * (q[1] * r[2] - q[2] * r[1]) - p[1] * (q[0] * r[2] - q[2] * r[0]) + p[2] * (q[0] * r[1] - q[1] * r[0]);
        }
        s += a.abs();
    }
    s
}

fn triangulate<T: Real, C: Cx<T>>(c: &mut C, ks: &[usize]) {
    let k = ks[c.choose("mesh", ks.len())];
    let mut t = topo(k);
    if k == 2 {
        t.cells.insert(0, vec![]);
    }
    let (x, det) = affine(c, &t);
    let m = build(&t, x.clone());
    let r = m.triangulate().expect("cells can be triangulated");
    let (f, k) = conn(&r);
    let z = T::zero();
    c.holds("no new vertices", r.vertices().len() == x.len());
    for (p, q) in r.vertices().iter().zip(&x) {
        same(c, "vertices stay", &p.coords, &q.coords);
    }
    c.holds("faces are triangles, each once", f.iter().all(|g| g.len() == 3) && f.iter().map(|g| sorted(g)).collect::<BTreeSet<_>>().len() == f.len());
    let mut total = z;
    let mut count = vec![0; f.len()];
    let mut per_cell = vec![z; t.cells.len()];
    for cell in &k {
        c.holds("four faces", cell.len() == 4);
        for g in cell {
            count[*g] += 1;
        }
        let vs: BTreeSet<usize> = cell.iter().flat_map(|g| f[*g].iter().copied()).collect();
        c.holds("a tetrahedron", vs.len() == 4 && cell.iter().collect::<BTreeSet<_>>().len() == 4);
        if vs.len() != 4 {
            return;
        }
        let p: Vec<Point3<T>> = vs.iter().map(|i| x[*i]).collect();
        let d = (p[1] - p[0]).cross(&(p[2] - p[0])).dot(&(p[3] - p[0]));
        c.ne("not degenerate", d, z);
        let v = if d < z { -d } else { d };
        total = total + v;
        // the original cell it belongs to
        let own: Vec<usize> = (0..t.cells.len())
            .filter(|j| vs.iter().all(|v| t.cells[*j].iter().any(|f| t.faces[*f].contains(v))))
            .collect();
        c.holds("inside one cell", own.len() == 1);
        if let Some(j) = own.first() {
            per_cell[*j] = per_cell[*j] + v;
        }
    }
    for (j, v) in per_cell.iter().enumerate() {
        c.eq("the tetrahedra fill their cell", *v, det * c.int(six_volume(&t, &t.cells[j])));
    }
    c.holds("conforming", count.iter().all(|n| *n <= 2));
    // original faces are covered by triangles: boundary triangles are exactly those on original boundary faces
    let on = |g: &[usize]| t.faces.iter().position(|o| g.iter().all(|v| o.contains(v)));
    let ip: Vec<Point3<f64>> = t.pts.iter().map(|p| Point3::new(p[0] as f64, p[1] as f64, p[2] as f64)).collect();
    let mut tri_area = vec![Vector3::zeros(); t.faces.len()];
    for (i, g) in f.iter().enumerate() {
        let old = on(g);
        if count[i] == 1 {
            c.holds("boundary triangles lie on original faces", old.is_some());
        }
        if let Some(o) = old {
            let a = area_vector(&x, g);
            let ia = area_vector::<f64>(&ip, g).dot(&area_vector(&ip, &t.faces[o]));
            let pos = ia > 0.0;
            tri_area[o] += if pos { a } else { -a };
        }
    }
    for (o, a) in tri_area.iter().enumerate() {
        same(c, "triangles cover the face", a, &area_vector(&x, &t.faces[o]));
    }
    c.eq("total", total, det * c.int(t.cells.iter().map(|k| six_volume(&t, k)).sum()));
}

fn volume<T: Real, C: Cx<T>>(c: &mut C) {
    let t = topo(c.choose("mesh", 5));
    let (x, det) = affine(c, &t);
    let m = build(&t, x);
    let want = det * c.frac(t.cells.iter().map(|k| six_volume(&t, k)).sum(), 6);
    c.eq("volume", m.compute_volume(), want);
    // any part of it
    let list: Vec<usize> = (0..t.cells.len()).filter(|i| c.choose(&format!("keep {i}"), 2) == 1).collect();
    let want = det * c.frac(list.iter().map(|k| six_volume(&t, &t.cells[*k])).sum(), 6);
    c.eq("volume of the kept cells", m.keep_cells(&list).compute_volume(), want);
}

/// Volume of { p in [0,1]^3 : n.p <= o } for n >= 0 (components in ascending use), by inclusion-exclusion.
fn corner_volume<T: Real, C: Cx<T>>(c: &C, n: [i64; 3], o: T) -> T {
    let nz: Vec<i64> = n.iter().copied().filter(|k| *k != 0).collect();
    let d = nz.len() as u32;
    let mut s = T::zero();
    for mask in 0..1usize << d {
        let sum: i64 = (0..d as usize).filter(|i| mask >> i & 1 == 1).map(|i| nz[i]).sum();
        let h = o - c.int(sum);
        if h > T::zero() {
            let p = (0..d).fold(T::one(), |a, _| a * h);
            s = if mask.count_ones() % 2 == 0 { s + p } else { s - p };
        }
    }
    let fact: i64 = (1..=d as i64).product();
    s / c.int(fact * nz.iter().product::<i64>())
}

/// n.(p - q) <= 0 describes the half-space; checks the clipped mesh against the region.
fn check_clipped<T: Real, C: Cx<T>>(c: &mut C, r: &PolyMesh3d<T>, n: &Vector3<T>, o: T, inside: &dyn Fn(&Point3<T>) -> Vec<(T, T)>, want: T) {
    for p in r.vertices() {
        c.le("vertices lie in the half-space", n.dot(&p.coords), o);
        for (a, b) in inside(p) {
            c.le("vertices lie in the original mesh", a, b);
        }
    }
    let (f, k) = conn(r);
    c.holds("no empty faces or cells", f.iter().all(|g| !g.is_empty()) && k.iter().all(|g| !g.is_empty()));
    let used: BTreeSet<usize> = f.iter().flatten().copied().collect();
    c.holds("no unused vertices", used.len() == r.vertices().len());
    // every cell is closed: each edge of its faces occurs twice
    for cell in &k {
        let mut edges: BTreeMap<[usize; 2], usize> = BTreeMap::new();
        for g in cell {
            let g = &f[*g];
            for i in 0..g.len() {
                let (a, b) = (g[i], g[(i + 1) % g.len()]);
                *edges.entry([a.min(b), a.max(b)]).or_insert(0) += 1;
            }
        }
        c.holds("cells are closed", edges.values().all(|n| *n == 2));
    }
    // boundary faces are oriented outward
    let mut a = Vector3::zeros();
    let mut v = T::zero();
    for i in r.find_boundary_faces() {
        let av = area_vector(r.vertices(), &f[i]);
        v = v + av.dot(&r.vertices()[f[i][0]].coords);
        a += av;
    }
    same(c, "boundary is closed and consistently oriented", &a, &Vector3::zeros());
    c.eq("boundary encloses the region's volume", v, want * c.int(6));
    c.eq("compute_volume is the region's volume", r.compute_volume(), want);
}

const NORMALS: [[i64; 3]; 6] = [[1, 0, 0], [0, 0, 1], [1, 2, 2], [0, 3, 4], [2, 3, 6], [1, 1, 1]];

fn clip<T: Real, C: Cx<T>>(c: &mut C, ks: &[usize], ns: &[usize]) {
    let t = topo(ks[c.choose("mesh", ks.len())]);
    let n = NORMALS[ns[c.choose("normal", ns.len())]];
    let flip = c.choose("flip", 2) == 1;
    let o = c.var("o", -1.0, 24.0);
    let nv = Vector3::new(c.int(n[0]), c.int(n[1]), c.int(n[2]));
    let l2: i64 = n.iter().map(|k| k * k).sum();
    let point = Point3::from(nv * (o / c.int(l2)));
    let unit = Unit::new_normalize(if flip { -nv } else { nv });
    let m = build(&t, concrete(c, &t));
    let r = m.intersect_half_space(&HalfSpace::from_point_and_normal(point, unit));
    // the mesh is a box of unit cubes
    let hi: Vec<i64> = (0..3).map(|a| t.pts.iter().map(|p| p[a]).max().unwrap()).collect();
    let mut below = T::zero();
    for i in 0..hi[0] {
        for j in 0..hi[1] {
            for k in 0..hi[2] {
                below = below + corner_volume(c, n, o - c.int(n[0] * i + n[1] * j + n[2] * k));
            }
        }
    }
    let want = if flip { c.int(hi.iter().product()) - below } else { below };
    let hs: Vec<T> = hi.iter().map(|k| c.int(*k)).collect();
    let (sn, so) = if flip { (-nv, -o) } else { (nv, o) };
    check_clipped(c, &r, &sn, so, &|p| (0..3).flat_map(|a| [(T::zero(), p[a]), (p[a], hs[a])]).collect(), want);
}

/// Clipping an arbitrary tetrahedron so that one corner remains, or one is cut off.
fn clip_corner<T: Real, C: Cx<T>>(c: &mut C) {
    let t = tets(1);
    let h = [c.var("h0", 0.125, 4.0), c.var("h1", 0.125, 4.0), c.var("h2", 0.125, 4.0)];
    let q = c.var("q", 0.125, 8.0);
    let z = T::zero();
    let x = vec![
        Point3::new(z, z, z),
        Point3::new(h[0], z, z),
        Point3::new(z, h[1], z),
        Point3::new(z, z, h[2]),
    ];
    let m = build(&t, x);
    // plane x + y + z = q below the other three corners, or above some of them
    for k in 0..3 {
        c.assume_lt(q, h[k]);
    }
    let o = T::one();
    let nv = Vector3::new(o, o, o);
    let hs = HalfSpace::from_point_and_normal(Point3::new(q, z, z), Unit::new_normalize(nv));
    let all = h[0] * h[1] * h[2] / c.int(6);
    let corner = q * q * q / c.int(6);
    let r = m.intersect_half_space(&hs);
    c.eq("corner piece", r.compute_volume(), corner);
    let s = m.intersect_half_space(&hs.complement());
    c.eq("rest", s.compute_volume(), all - corner);
}

/// Two polyhedra: a translated box, or a box corner cut by a tetrahedron.
fn clip_hex<T: Real, C: Cx<T>>(c: &mut C, ks: &[usize]) {
    let t = topo(ks[c.choose("mesh", ks.len())]);
    let m = build(&t, concrete(c, &t));
    let hi: Vec<i64> = (0..3).map(|a| t.pts.iter().map(|p| p[a]).max().unwrap()).collect();
    let (z, o) = (T::zero(), T::one());
    // move along one axis at a time
    let axis = c.choose("axis", 3);
    let s = c.var("s", -2.0, 4.0);
    let mut d = Vector3::new(c.frac(1, 4), c.frac(1, 4), c.frac(1, 4));
    d[axis] = s;
    let hex = Hexahedron::from_vertices(
        [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]].map(|v| Point3::new(c.int(v[0]), c.int(v[1]), c.int(v[2])) + d),
    );
    let r = m.intersect_convex_polyhedron(&hex);
    let mut want = o;
    for a in 0..3 {
        let lo = if d[a] > z { d[a] } else { z };
        let up = if d[a] + o < c.int(hi[a]) { d[a] + o } else { c.int(hi[a]) };
        want = want * if up > lo { up - lo } else { z };
    }
    c.eq("volume of the overlap", r.compute_volume(), want);
    for p in r.vertices() {
        for a in 0..3 {
            c.le("vertices lie in both", d[a], p[a]);
            c.le("vertices lie in both", p[a], d[a] + o);
            c.le("vertices lie in both", z, p[a]);
            c.le("vertices lie in both", p[a], c.int(hi[a]));
        }
    }
}
fn clip_tet<T: Real, C: Cx<T>>(c: &mut C) {
    let t = topo(1);
    let m = build(&t, concrete(c, &t));
    let s = c.var("s", 0.125, 4.0);
    let z = T::zero();
    let tet = Tetrahedron::from_vertices([Point3::new(z, z, z), Point3::new(s, z, z), Point3::new(z, s, z), Point3::new(z, z, s)]);
    let r = m.intersect_convex_polyhedron(&tet);
    let want = corner_volume(c, [1, 1, 1], s);
    c.eq("cube cut by a corner tetrahedron", r.compute_volume(), want);
}

/// Faces with fewer than three vertices cannot be triangulated; indices of data that do not exist are refused.
fn refused<T: Real, C: Cx<T>>(c: &mut C) {
    let t = topo(c.choose("mesh", 3));
    let x = free(c, t.pts.len());
    let (i, n) = (c.choose("face", t.faces.len()), c.choose("vertices", 3));
    let mut thin = t.faces.clone();
    thin[i].truncate(n);
    c.holds("a face without area is an error", build(&Topo { pts: t.pts.clone(), faces: thin, cells: t.cells.clone() }, x.clone()).triangulate().is_err());
    let (mut faces, mut cells) = (t.faces.clone(), t.cells.clone());
    let over = c.choose("too large by", 2);
    if c.choose("in", 2) == 0 {
        let k = c.choose("entry", faces[i].len());
        faces[i][k] = t.pts.len() + over;
    } else {
        let j = c.choose("cell", cells.len());
        let k = c.choose("entry", cells[j].len());
        cells[j][k] = t.faces.len() + over;
    }
    c.holds("missing vertices or faces are refused", panics(|| drop(build(&Topo { pts: t.pts.clone(), faces: faces.clone(), cells: cells.clone() }, x.clone()))));
}

pub fn list(v: &mut Vec<Harness>) {
    h!(v, "P06", "topology", Quick, "accessors, boundary, face-cell connectivity, translation", |c| topology(c));
    h!(v, "P06", "dedup", Quick, "every choice of 4 faces among 7", |c| dedup(c));
    h!(v, "P06", "refused", Quick, "faces with fewer than three vertices, vertices and faces that do not exist", |c| refused(c));
    h!(v, "P06", "concatenate", Quick, "0-3 meshes, incomplete ones included", |c| concatenate(c));
    h!(v, "P06", "keep", Quick, "every list of cells", |c| keep(c));
    h!(v, "P06", "split", Quick, "edge splitting, 0-3 times", |c| split(c));
    h!(v, "P06", "triangulate", Quick, "affine images of tetrahedra, cubes, a house", |c| triangulate(c, &[0, 1, 2, 3, 4]));
    h!(v, "P06", "triangulate_more", Thorough, "other numberings", |c| triangulate(c, &[5, 6, 7]));
    h!(v, "P06", "volume", Quick, "volume of affine images", |c| volume(c));
    h!(v, "P06", "clip", Quick, "one and two cubes x half-spaces of fixed normal at any offset", |c| clip(c, &[1, 3], &[0, 1, 2, 3]));
    h!(v, "P06", "clip_more", Thorough, "more meshes and normals", |c| clip(c, &[1, 3, 5, 6, 7], &[0, 1, 2, 3, 4, 5]));
    h!(v, "P06", "clip_corner", Quick, "right-angled tetrahedra of any size, one corner cut off", |c| clip_corner(c));
    h!(v, "P06", "clip_hex", Quick, "cube mesh x translated cube", |c| clip_hex(c, &[1]));
    h!(v, "P06", "clip_hex_more", Thorough, "cube meshes x translated cube", |c| clip_hex(c, &[3, 5]));
    h!(v, "P06", "clip_tet", Quick, "cube x scaled corner tetrahedron", |c| clip_tet(c));
}
