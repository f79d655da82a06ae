//! P28: matrix helpers, decompositions, matrix files and reinterpretation of storage.
use super::util::*;
use crate::h;
use fenris::connectivity::*;
use fenris::mesh::Mesh;
use fenris::util::*;
use fenris_geometry::util::slices_are_equal_shift_invariant;
use nalgebra::{Const, Quaternion, UnitQuaternion};
use nalgebra_sparse::{CooMatrix, CsrMatrix};
use num_traits::ToPrimitive;
use std::fmt;

const B: f64 = 4.0;
fn vars<T: Real, C: Cx<T>>(c: &mut C, s: &str, n: usize) -> Vec<T> {
    (0..n).map(|i| c.var(&format!("{s}{i}"), -B, B)).collect()
}

// ---------------------------------------------------------------- decompositions

fn svd<T: Real, C: Cx<T>>(c: &mut C, full: bool) {
    let v = vars(c, "a", 4);
    let a = match if full { 9 } else { c.choose("shape", 4) } {
        9 => Matrix2::new(v[0], v[1], v[2], v[3]),
        0 => Matrix2::new(c.frac(3, 2), v[1], v[2], c.frac(-5, 4)),
        1 => Matrix2::new(v[0], v[1], v[1], v[3]),
        2 => Matrix2::new(v[0], v[1], v[1] + v[1], v[0]),
        _ => Matrix2::new(v[0], -v[1], v[1], v[0] + v[0]),
    };
    // not a multiple of a rotation or of a reflection (angles which are not defined)
    let sq = |x: T| x * x;
    c.assume_lt(T::zero(), sq(a[(0, 0)] + a[(1, 1)]) + sq(a[(1, 0)] - a[(0, 1)]));
    c.assume_lt(T::zero(), sq(a[(0, 0)] - a[(1, 1)]) + sq(a[(1, 0)] + a[(0, 1)]));
    let (u, s, vt) = rotation_svd(&a);
    for (m, n) in [(&u, "U"), (&vt, "V")] {
        c.eq(&format!("{n} has determinant one"), m[(0, 0)] * m[(1, 1)] - m[(0, 1)] * m[(1, 0)], T::one());
        for i in 0..2 {
            for j in 0..2 {
                let d = m[(0, i)] * m[(0, j)] + m[(1, i)] * m[(1, j)];
                c.eq(&format!("{n} is orthogonal"), d, if i == j { T::one() } else { T::zero() });
            }
        }
    }
    for i in 0..2 {
        for j in 0..2 {
            let x = u[(i, 0)] * s[0] * vt[(0, j)] + u[(i, 1)] * s[1] * vt[(1, j)];
            c.eq("U S V^T", x, a[(i, j)]);
        }
    }
}
fn eigen<T: Real, C: Cx<T>>(c: &mut C, full: bool) {
    let mut v = vars(c, "a", 3);
    if !full {
        let x = v[0];
        let (p, q) = (c.frac(3, 4), c.frac(-1, 2));
        v = match c.choose("shape", 4) {
            0 => vec![x, p, q],
            1 => vec![x, q, x],
            2 => vec![x, x + x, -x],
            _ => vec![x, T::zero(), p],
        };
    }
    let a = Matrix2::new(v[0], v[1], v[1], v[2]);
    let lo = min_eigenvalue_symmetric(&a);
    let (l, h) = min_max_symmetric_eigenvalues(&a);
    c.eq("smallest eigenvalue", lo, l);
    c.le("order", l, h);
    c.eq("trace", l + h, v[0] + v[2]);
    c.eq("determinant", l * h, v[0] * v[2] - v[1] * v[1]);
}
fn condition<T: Real, C: Cx<T>>(c: &mut C, kind: usize) {
    let v = vars(c, "a", 3);
    let a = match kind {
        0 => Matrix2::new(v[0], T::zero(), T::zero(), v[2]),
        1 => Matrix2::new(v[0], c.frac(3, 4), c.frac(3, 4), c.frac(-1, 2)),
        _ => Matrix2::new(v[0], v[1], v[1], v[2]),
    };
    let (l, h) = min_max_symmetric_eigenvalues(&a);
    let mag = |c: &mut C, x: T, n: &str| {
        if c.choose(n, 2) == 0 {
            c.assume_lt(c.frac(1, 64), x);
            x
        } else {
            c.assume_lt(x, c.frac(-1, 64));
            -x
        }
    };
    let (l, h) = (mag(c, l, "sign of the smallest"), mag(c, h, "sign of the largest"));
    let k = condition_number_symmetric(&a);
    let (s, b) = if c.choose("larger", 2) == 0 {
        c.assume_le(l, h);
        (l, h)
    } else {
        c.assume_le(h, l);
        (h, l)
    };
    c.eq("ratio of the largest to the smallest magnitude", k * s, b);
}

/// A unit quaternion from a vector (Cayley transform).
fn cayley<T: Real>(t: &Vector3<T>) -> UnitQuaternion<T> {
    let n = t.norm_squared();
    let d = T::one() + n;
    UnitQuaternion::new_unchecked(Quaternion::from_parts((T::one() - n) / d, t.map(|x| (x + x) / d)))
}
fn some_rotation<T: Real, C: Cx<T>>(c: &mut C) -> UnitQuaternion<T> {
    let t = [[0, 0, 0], [3, 0, 0], [2, -1, 1]][c.choose("rotation", 3)];
    cayley(&Vector3::new(c.frac(t[0], 4), c.frac(t[1], 4), c.frac(t[2], 4)))
}
/// The rotation matrix of a unit quaternion, written out.
fn matrix_of<T: Real>(q: &UnitQuaternion<T>) -> Matrix3<T> {
    let (w, x, y, z) = (q.w, q.i, q.j, q.k);
    let two = T::one() + T::one();
    Matrix3::new(
        w * w + x * x - y * y - z * z,
        two * (x * y - w * z),
        two * (x * z + w * y),
        two * (x * y + w * z),
        w * w - x * x + y * y - z * z,
        two * (y * z - w * x),
        two * (x * z - w * y),
        two * (y * z + w * x),
        w * w - x * x - y * y + z * z,
    )
}
fn symmetric<T: Real, C: Cx<T>>(c: &mut C, full: bool) -> Matrix3<T> {
    let d: Vec<T> = (0..3).map(|i| c.var(&format!("d{i}"), 1.0, 3.0)).collect();
    let o: Vec<T> = if full { (0..3).map(|i| c.var(&format!("o{i}"), -0.25, 0.25)).collect() } else { vec![c.frac(1, 4), c.frac(-1, 8), c.frac(1, 8)] };
    Matrix3::new(d[0], o[0], o[1], o[0], d[1], o[2], o[1], o[2], d[2])
}
/// Every step gives a unit quaternion; without steps, the guess is returned.
fn apd_unit<T: Real, C: Cx<T>>(c: &mut C, steps: usize, free: usize) {
    let f = vars(c, "f", 4);
    let g = c.choose("free entries", 3);
    // some entries are arbitrary
    let at = [[0, 4, 8, 1], [0, 1, 2, 6], [3, 4, 5, 7]][g];
    let mut m = Matrix3::from_fn(|i, j| c.frac([[8, 1, -2], [3, 7, 1], [-1, 2, 9]][i][j], 4));
    for k in 0..free {
        m[(at[k] / 3, at[k] % 3)] = f[k];
    }
    let guess = some_rotation(c);
    let q = apd(&m, &guess, steps, c.frac(1, 1024));
    let v = q.coords;
    c.eq("unit quaternion", v.norm_squared(), T::one());
    if steps == 0 {
        same(c, "guess", &v, &guess.coords);
    }
}
/// At a rotation times a symmetric positive definite matrix, the rotation is kept.
fn apd_fixed<T: Real, C: Cx<T>>(c: &mut C) {
    let s = symmetric(c, false);
    let r = some_rotation(c);
    let steps = 1 + 4 * c.choose("steps", 2);
    let q = apd(&(matrix_of(&r) * s), &r, steps, c.frac(1, 1024));
    same(c, "the polar rotation is kept", &q.coords, &r.coords);
}
/// A step from near the polar rotation leaves an error of second order.
fn apd_quadratic<T: Real, C: Cx<T>>(c: &mut C, free: bool) {
    let mut s = Matrix3::from_fn(|i, j| c.frac([[8, 1, -2], [1, 7, 1], [-2, 1, 9]][i][j], 4));
    if free {
        let i = c.choose("free entry", 3);
        s[(i, i)] = c.var("d", 1.0, 3.0);
    }
    let r = some_rotation(c);
    let axis = c.choose("axis", 3);
    let t = c.var("t", -0.125, 0.125);
    let d = Vector3::from_fn(|i, _| if i == axis { t } else { T::zero() });
    let q = apd(&(matrix_of(&r) * s), &(r * cayley(&d)), 1, c.frac(1, 1024));
    // the error, as a rotation
    let e = r.inverse() * q;
    for x in [e.i, e.j, e.k] {
        c.le("error after a step", x, t * t + t * t);
        c.le("error after a step", -x, t * t + t * t);
    }
}

// ---------------------------------------------------------------- views and products

fn small<T: Real, C: Cx<T>>(c: &mut C) {
    let x = vec3(c, "x", B);
    let y = vec3(c, "y", B);
    let m = cross_product_matrix(&x);
    for i in 0..3 {
        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
        let p = (0..3).fold(T::zero(), |s, l| s + m[(i, l)] * y[l]);
        c.eq("cross product", p, x[j] * y[k] - x[k] * y[j]);
    }
    let a = nalgebra::Matrix2x3::from_iterator(vars(c, "a", 6));
    let d = vec2(c, "d", B);
    let p = diag_left_mul(&d, &a);
    for i in 0..2 {
        for j in 0..3 {
            c.eq("diagonal times matrix", p[(i, j)], d[i] * a[(i, j)]);
        }
    }
}
fn views<T: Real, C: Cx<T>>(c: &mut C) {
    let (r, k) = ([1, 2, 3][c.choose("rows", 3)], [1, 2, 4][c.choose("columns", 3)]);
    let v = vars(c, "m", 16);
    let mut m = DMatrix::from_fn(r, k, |i, j| v[i * 4 + j]);
    let s = coerce_col_major_slice(&m, Dyn(r), Dyn(k));
    c.holds("shape", s.shape() == (r, k));
    for i in 0..r {
        for j in 0..k {
            c.eq("entry of the view", s[(i, j)], v[i * 4 + j]);
        }
    }
    let (i, j) = (c.choose("row", 3) % r, c.choose("column", 4) % k);
    let z = c.var("z", -B, B);
    coerce_col_major_slice_mut(&mut m, Dyn(r), Dyn(k))[(i, j)] = z;
    for a in 0..r {
        for b in 0..k {
            c.eq("entry after writing to the view", m[(a, b)], if (a, b) == (i, j) { z } else { v[a * 4 + b] });
        }
    }
    // part of the rows is not stored contiguously
    let contiguous = r == 3 || k == 1;
    let big = DMatrix::from_fn(3, k, |i, j| v[i * 4 + j]);
    let part = big.rows(0, r);
    let p = panics(|| {
        coerce_col_major_slice(&part, Dyn(r), Dyn(k));
    });
    c.holds("only contiguous columns are accepted", contiguous || p);
    let p = panics(|| {
        coerce_col_major_slice(&big, Dyn(2), Dyn(k));
    });
    c.holds("only the same shape is accepted", p);
}
fn transmute<T: Real, C: Cx<T>>(c: &mut C) {
    let mut v = vars(c, "v", 3);
    c.holds("another type", try_transmute_slice::<T, u8>(&v).is_none() && try_transmute_ref::<T, [T; 2]>(&v[0]).is_none());
    let w = try_transmute_slice::<T, T>(&v).map(|w| w.to_vec());
    let r = try_transmute_ref::<T, T>(&v[1]).copied();
    match (w, r) {
        (Some(w), Some(r)) => {
            same_slice(c, "same type", &w, &v);
            c.eq("same type", r, v[1]);
        }
        _ => c.holds("the same type is accepted", false),
    }
    let z = c.var("z", -B, B);
    c.holds("another type", try_transmute_ref_mut::<T, u64>(&mut v[0]).is_none());
    match try_transmute_ref_mut::<T, T>(&mut v[2]) {
        Some(x) => *x = z,
        None => c.holds("the same type is accepted", false),
    }
    c.eq("written", v[2], z);
}
macro_rules! nodal {
    ($($n:ident $d:ident $s:ident;)*) => {$(
fn $n<T: Real, C: Cx<T>>(c: &mut C) {
    let (d, s) = ($d::dim(), $s::dim());
    let k = c.choose("nodes", 4);
    let (u, phi, g) = (vars(c, "u", 3 * s), vars(c, "n", 3), vars(c, "g", 3 * d));
    let (ul, pl, gl) = (&u[..s * k], &phi[..k], &g[..d * k]);
    let x = compute_interpolation::<T, $s>(ul, pl);
    let y = compute_interpolation_gradient::<T, $s, $d>(ul, gl);
    for i in 0..s {
        let want = (0..k).fold(T::zero(), |t, a| t + phi[a] * u[s * a + i]);
        c.eq("interpolation", x[i], want);
        for j in 0..d {
            let want = (0..k).fold(T::zero(), |t, a| t + g[d * a + j] * u[s * a + i]);
            c.eq("interpolation gradient", y[(j, i)], want);
        }
    }
    // nodes in any order and repeated
    let ids: Vec<usize> = (0..k).map(|i| c.choose(&format!("node {i}"), 3)).collect();
    let e = extract_by_node_index::<T, $s>(&u, &ids);
    c.holds("length", e.len() == s * k);
    for (a, id) in ids.iter().enumerate() {
        for i in 0..s {
            c.eq("nodal value", e[s * a + i], u[s * id + i]);
        }
    }
    // values at points, in their order
    let pts: Vec<OPoint<T, $d>> = (0..k).map(|i| ptn::<T, $d, C>(c, &format!("p{i}"), B)).collect();
    let f = |x: &OPoint<T, $d>| OVector::<T, $s>::from_fn(|i, _| x[0] * u[i] + x[d - 1] * x[d - 1]);
    let all = global_vector_from_point_fn(&pts, f);
    c.holds("length", all.len() == s * k);
    for (a, p) in pts.iter().enumerate() {
        let v = f(p);
        for i in 0..s {
            c.eq("function value", all[s * a + i], v[i]);
        }
    }
}
    )*};
}
nodal! {
    nodal_1_2 U1 U2;
    nodal_2_1 U2 U1;
    nodal_2_3 U2 U3;
    nodal_3_3 U3 U3;
}
fn shift<T: Real, C: Cx<T>>(c: &mut C) {
    let (n, m) = (c.choose("length", 5), c.choose("other length", 5));
    let x: Vec<usize> = (0..n).map(|i| c.choose(&format!("x{i}"), 2)).collect();
    let y: Vec<usize> = (0..m).map(|i| c.choose(&format!("y{i}"), 2)).collect();
    let want = n == m && (n == 0 || (0..n).any(|s| (0..n).all(|i| x[(i + s) % n] == y[i])));
    c.holds("equal up to a rotation", slices_are_equal_shift_invariant(&x, &y, |a, b| a == b) == want);
}

// ---------------------------------------------------------------- files

/// A number written as text in full.
#[derive(Clone, PartialEq, Debug)]
struct W<T>(T);
impl<T: ToPrimitive> fmt::Display for W<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(&self.0.to_f64().unwrap(), f)
    }
}
impl<T: ToPrimitive> fmt::LowerExp for W<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::LowerExp::fmt(&self.0.to_f64().unwrap(), f)
    }
}
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let d = std::env::temp_dir().join(format!("symx-misc-{}-{:?}", std::process::id(), std::thread::current().id()));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// (rows, columns, entries (i, j, value)) of a Matrix Market file.
fn read_mm<T: Real>(text: &str) -> Option<(usize, usize, Vec<(usize, usize, T)>)> {
    let mut l = text.lines();
    if l.next()? != "%%MatrixMarket matrix coordinate real general" {
        return None;
    }
    let d: Vec<usize> = l.next()?.split(' ').map(|x| x.parse().ok()).collect::<Option<_>>()?;
    let mut e = vec![];
    for l in l {
        let w: Vec<&str> = l.split(' ').collect();
        if w.len() != 3 {
            return None;
        }
        e.push((w[0].parse::<usize>().ok()?.checked_sub(1)?, w[1].parse::<usize>().ok()?.checked_sub(1)?, T::from_f64(w[2].parse().ok()?)?));
    }
    (d.len() == 3 && d[2] == e.len()).then_some((d[0], d[1], e))
}
fn dump<T: Real + ToPrimitive, C: Cx<T>>(c: &mut C) {
    let dir = Scratch::new();
    let path = dir.0.join("m");
    let (r, k) = (c.choose("rows", 4), 1 + c.choose("columns", 3));
    let v = vars(c, "v", 12);
    let m = DMatrix::from_fn(r, k, |i, j| W(v[i * 3 + j]));
    dump_matrix_to_file(&path, &m).unwrap();
    let t = std::fs::read_to_string(&path).unwrap();
    let rows: Vec<Vec<T>> = t.lines().map(|l| l.split(' ').map(|x| T::from_f64(x.parse().unwrap()).unwrap()).collect()).collect();
    c.holds("rows", rows.len() == r && rows.iter().all(|x| x.len() == k));
    for i in 0..rows.len().min(r) {
        same_slice(c, "row", &rows[i], &v[i * 3..i * 3 + k]);
    }
    // a sparse matrix of any pattern
    let mut coo = CooMatrix::new(r, k);
    let mut want = vec![];
    for i in 0..r.min(2) {
        for j in 0..k {
            if c.choose(&format!("entry {i} {j}"), 2) == 1 {
                coo.push(i, j, W(v[i * 3 + j]));
                want.push((i, j, v[i * 3 + j]));
            }
        }
    }
    let pattern = {
        let mut p = CooMatrix::new(r, k);
        want.iter().for_each(|(i, j, _)| p.push(*i, *j, 1.0f64));
        CsrMatrix::from(&p).pattern().clone()
    };
    let csr = CsrMatrix::try_from_pattern_and_values(pattern, want.iter().map(|w| W(w.2)).collect()).unwrap();
    dump_csr_matrix_to_mm_file(&path, &csr).unwrap();
    match read_mm::<T>(&std::fs::read_to_string(&path).unwrap()) {
        None => c.holds("a Matrix Market file", false),
        Some((a, b, e)) => {
            c.holds("shape", (a, b) == (r, k));
            c.holds("entries", e.iter().map(|e| (e.0, e.1)).eq(want.iter().map(|e| (e.0, e.1))));
            for (x, y) in e.iter().zip(&want) {
                c.eq("value", x.2, y.2);
            }
        }
    }
}
fn dump_mesh<T: Real, C: Cx<T>>(c: &mut C) {
    let n = 4 + c.choose("vertices", 2);
    let conn: Vec<Tri3d2Connectivity> = [[0, 1, 2], [2, 1, 3], [0, 2, 3]][..c.choose("cells", 4)].iter().map(|x| Tri3d2Connectivity(*x)).collect();
    let mesh = Mesh::<f64, U2, _>::from_vertices_and_connectivity(vec![Point2::origin(); n], conn.clone());
    let dir = Scratch::new();
    let (p, q) = (dir.0.join("nodes"), dir.0.join("elements"));
    dump_mesh_connectivity_matrices(&p, &q, &mesh).unwrap();
    let (a, b) = (read_mm::<T>(&std::fs::read_to_string(&p).unwrap()), read_mm::<T>(&std::fs::read_to_string(&q).unwrap()));
    let (Some(a), Some(b)) = (a, b) else {
        c.holds("Matrix Market files", false);
        return;
    };
    c.holds("shapes", (a.0, a.1) == (n, n) && (b.0, b.1) == (conn.len(), n));
    let mut nodes = std::collections::BTreeSet::new();
    let mut els = std::collections::BTreeSet::new();
    for (k, x) in conn.iter().enumerate() {
        for i in x.0 {
            els.insert((k, i));
            x.0.iter().for_each(|j| {
                nodes.insert((i, *j));
            });
        }
    }
    let set = |e: &[(usize, usize, T)]| e.iter().map(|e| (e.0, e.1)).collect::<std::collections::BTreeSet<_>>();
    c.holds("nodes sharing an element", set(&a.2) == nodes && a.2.len() == nodes.len());
    c.holds("nodes of the elements", set(&b.2) == els && b.2.len() == els.len());
}

fn fixed_shape<T: Real, C: Cx<T>>(c: &mut C) {
    let mut m = Matrix3::from_iterator(vars(c, "m", 9));
    let n = m;
    let s = coerce_col_major_slice(&m, Const::<3>, Const::<3>);
    same_slice(c, "entries", s.as_slice(), n.as_slice());
    let z = c.var("z", -B, B);
    coerce_col_major_slice_mut(&mut m, Const::<3>, Dyn(3))[(2, 1)] = z;
    for i in 0..3 {
        for j in 0..3 {
            c.eq("after writing", m[(i, j)], if (i, j) == (2, 1) { z } else { n[(i, j)] });
        }
    }
}

pub fn list() -> Vec<Harness> {
    let mut v = vec![];
    h!(v, "P28", "rotation_svd_2d", Quick, "decomposition into rotations and a diagonal", |c| svd(c, false));
    h!(v, "P28", "rotation_svd_2d_full", Thorough, "decomposition into rotations and a diagonal", |c| svd(c, true));
    h!(v, "P28", "eigenvalues_2d", Quick, "eigenvalues of a symmetric matrix", |c| eigen(c, false));
    h!(v, "P28", "eigenvalues_2d_full", Thorough, "eigenvalues of a symmetric matrix", |c| eigen(c, true));
    h!(v, "P28", "condition_diagonal", Quick, "condition number", |c| condition(c, 0));
    h!(v, "P28", "condition_line", Quick, "condition number", |c| condition(c, 1));
    h!(v, "P28", "condition_2d", Thorough, "condition number", |c| condition(c, 2));
    h!(v, "P28", "apd_none", Quick, "polar rotation without steps", |c| apd_unit(c, 0, 4));
    h!(v, "P28", "apd_unit", Quick, "polar rotation after a step", |c| apd_unit(c, 1, 1));
    h!(v, "P28", "apd_fixed", Quick, "fixed points of the polar rotation", |c| apd_fixed(c));
    h!(v, "P28", "apd_quadratic", Quick, "convergence of the polar rotation", |c| apd_quadratic(c, false));
    h!(v, "P28", "apd_quadratic_free", Thorough, "convergence of the polar rotation", |c| apd_quadratic(c, true));
    h!(v, "P28", "small", Quick, "cross product and diagonal product", |c| small(c));
    h!(v, "P28", "views", Quick, "column-major views", |c| views(c));
    h!(v, "P28", "fixed_shape", Quick, "column-major views", |c| fixed_shape(c));
    h!(v, "P28", "transmute", Quick, "checked reinterpretation", |c| transmute(c));
    macro_rules! nodal_list { ($($n:ident)*) => { $( h!(v, "P28", stringify!($n), Quick, "nodal values and interpolation", |c| $n(c)); )* } }
    nodal_list!(nodal_1_2 nodal_2_1 nodal_2_3 nodal_3_3);
    h!(v, "P28", "shift", Quick, "equality up to rotation", |c| shift(c));
    h!(v, "P28", "dump", Quick, "matrix files", |c| dump(c));
    h!(v, "P28", "dump_mesh", Quick, "mesh connectivity files", |c| dump_mesh(c));
    v
}
