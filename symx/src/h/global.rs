//! P15 (global assembly) and P16 (homogeneous Dirichlet conditions).
use super::local::Fake;
use super::util::*;
use crate::h;
use fenris::assembly::global::*;
use fenris::assembly::local::*;
use nalgebra_sparse::pattern::SparsityPattern;
use nalgebra_sparse::CsrMatrix;
use std::collections::BTreeSet;

const B: f64 = 4.0;

/// All ordered selections of 1..=k different nodes out of n.
fn selections(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        let mut next = vec![];
        for s in &last {
            for i in 0..n {
                if !s.contains(&i) {
                    let mut t = s.clone();
                    t.push(i);
                    next.push(t);
                }
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
fn neighbors(f: &[Vec<usize>], nodes: usize) -> Vec<BTreeSet<usize>> {
    let mut v = vec![BTreeSet::new(); nodes];
    for e in f {
        for i in e {
            v[*i].extend(e.iter().copied());
        }
    }
    v
}
fn scatter<T: Real>(f: &Fake<T>, mut m: DMatrix<T>) -> DMatrix<T> {
    for (e, ids) in f.conn.iter().enumerate() {
        for (a, i) in ids.iter().enumerate() {
            for (b, j) in ids.iter().enumerate() {
                for r in 0..f.s {
                    for s in 0..f.s {
                        m[(f.s * i + r, f.s * j + s)] += f.mats[e][(f.s * a + r, f.s * b + s)];
                    }
                }
            }
        }
    }
    m
}
fn scatter_vec<T: Real>(f: &Fake<T>, mut v: DVector<T>) -> DVector<T> {
    for (e, ids) in f.conn.iter().enumerate() {
        for (a, i) in ids.iter().enumerate() {
            for r in 0..f.s {
                v[f.s * i + r] += f.vecs[e][f.s * a + r];
            }
        }
    }
    v
}
fn dense<T: Real>(m: &CsrMatrix<T>) -> DMatrix<T> {
    let mut d = DMatrix::zeros(m.nrows(), m.ncols());
    for (i, j, v) in m.triplet_iter() {
        d[(i, j)] += *v;
    }
    d
}
fn pattern_ok<T: Real, C: Cx<T>>(c: &mut C, p: &SparsityPattern, f: &Fake<T>) {
    let n = neighbors(&f.conn, f.nodes);
    let mut ok = p.major_dim() == f.s * f.nodes && p.minor_dim() == f.s * f.nodes;
    for r in 0..f.s * f.nodes {
        let want: Vec<usize> = n[r / f.s].iter().flat_map(|j| (0..f.s).map(move |k| f.s * j + k)).collect();
        ok = ok && p.lane(r) == want;
    }
    c.holds("the pattern holds exactly the couplings, sorted", ok);
}
/// Everything about one assembler.
fn all<T: Real, C: Cx<T>>(c: &mut C, f: &Fake<T>) {
    let n = f.s * f.nodes;
    let colors = color_nodes(f);
    let mut seen = vec![0; f.conn.len()];
    for col in &colors {
        let mut used = BTreeSet::new();
        for (s, l) in col.subsets().iter().zip(col.labels()) {
            seen[*l] += 1;
            c.holds("a colored subset is the element's node list", s == f.conn[*l].as_slice());
            c.holds("elements of one color share no node", s.iter().all(|i| used.insert(*i)));
        }
    }
    c.holds("every element has exactly one color", seen.iter().all(|k| *k == 1));
    let zero = DMatrix::zeros(n, n);
    let want = scatter(f, zero);
    let ser = CsrAssembler::default().assemble(f).unwrap();
    pattern_ok(c, ser.pattern(), f);
    same_slice(c, "assembled matrix", dense(&ser).as_slice(), want.as_slice());
    let par = CsrParAssembler::default().assemble(&colors, f).unwrap();
    pattern_ok(c, par.pattern(), f);
    same_slice(c, "matrix assembled in parallel", dense(&par).as_slice(), want.as_slice());
    let want = scatter_vec(f, DVector::zeros(n));
    same_slice(c, "assembled vector", VectorAssembler::default().assemble_vector(f).unwrap().as_slice(), want.as_slice());
    same_slice(c, "vector assembled in parallel", VectorParAssembler::default().assemble_vector(&colors, f).unwrap().as_slice(), want.as_slice());
    let want = f.scal.iter().fold(T::zero(), |s, x| s + *x);
    c.eq("assembled scalar", assemble_scalar(f).unwrap(), want);
    #[allow(deprecated)]
    {
        c.eq("assembled scalar (deprecated name)", compute_global_potential(f).unwrap(), want);
        c.eq("scalar assembled in parallel (deprecated name)", par_compute_global_potential(f).unwrap(), want);
    }
    c.eq("scalar assembled in parallel", par_assemble_scalar(f).unwrap(), want);
}
fn pairs<T: Real, C: Cx<T>>(c: &mut C, s: usize, n: usize, k: usize) {
    let sel = selections(n, k);
    let a = sel[c.choose("element 0", sel.len())].clone();
    let b = sel[c.choose("element 1", sel.len())].clone();
    let f = Fake::new(c, "", s, n, vec![a, b]);
    all(c, &f);
}
fn three<T: Real, C: Cx<T>>(c: &mut C) {
    let sel: Vec<_> = selections(3, 2).into_iter().filter(|e| e.len() == 2).collect();
    let conn = (0..3).map(|k| sel[c.choose(&format!("element {k}"), sel.len())].clone()).collect();
    let f = Fake::new(c, "", 2, 3, conn);
    all(c, &f);
}
fn shapes(k: usize) -> (usize, Vec<Vec<usize>>) {
    match k {
        0 => (0, vec![]),
        1 => (3, vec![]),
        2 => (3, vec![vec![], vec![2], vec![]]),
        // strip
        3 => (24, (0..23).map(|i| vec![i + 1, i]).collect()),
        // star: one color per element
        4 => (13, (1..13).map(|i| vec![i, 0]).collect()),
        // disjoint elements, one color
        5 => (33, (0..11).map(|i| vec![32 - 3 * i, 31 - 3 * i, 30 - 3 * i]).collect()),
        // irregular, unsorted, several sizes, isolated nodes
        6 => (23, (0..21usize).map(|i| (0..1 + i % 3).map(|j| (7 * i + 5 * j * j + 3 * j + i * i) % 19).collect()).collect()),
        // high nodes first
        7 => (40, vec![vec![39, 3], vec![0, 39], vec![21, 0, 5], vec![5, 39, 20], vec![1, 2], vec![20, 10, 9]]),
        // every pair of six nodes
        _ => (6, (0..6).flat_map(|i| (0..6).filter(move |j| *j != i && (i + j) % 2 == 1).map(move |j| vec![i, j])).collect()),
    }
}
fn many<T: Real, C: Cx<T>>(c: &mut C) {
    let (nodes, conn) = shapes(c.choose("mesh", 9));
    let conn: Vec<_> = conn.into_iter().filter(|e| (0..e.len()).all(|i| !e[..i].contains(&e[i]))).collect();
    let s = 1 + c.choose("solution dimension", 3);
    let f = Fake::new(c, "", s, nodes, conn);
    all(c, &f);
}
/// An element with any order of four nodes, next to a five-node element with any of many orders.
fn quads<T: Real, C: Cx<T>>(c: &mut C, s: usize) {
    let sel: Vec<_> = selections(5, 4).into_iter().filter(|e| e.len() == 4).collect();
    let a = sel[c.choose("element 0", sel.len())].clone();
    let all5: Vec<_> = selections(5, 5).into_iter().filter(|e| e.len() == 5).collect();
    let k = c.choose("element 1", 4);
    let b = all5[(37 * k + 11 * a[0] + 5 * a[1] + a[2]) % all5.len()].iter().map(|i| i + 2).collect();
    let f = Fake::new(c, "", s, 8, vec![a, b, vec![7, 0]]);
    all(c, &f);
}
/// Elements of up to 27 nodes, in unsorted orders, small elements between large ones.
fn large<T: Real, C: Cx<T>>(c: &mut C) {
    let sizes = [4, 5, 6, 8, 9, 10, 20, 27];
    let n = sizes[c.choose("nodes of the large element", 8)];
    let order = c.choose("order", 3);
    let step = [7, n - 1, 11][order]; // 7 and 11 are coprime to every size
    let e: Vec<usize> = (0..n).map(|i| (i * step + 3) % n + 1).collect();
    let small = vec![e[2], e[0], e[1]];
    let f = Fake::new(c, "", 1, n + 2, vec![e, small, vec![n + 1, 0]]);
    all(c, &f);
}
/// Element counts around multiples of the batch sizes, many nodes.
fn counts<T: Real, C: Cx<T>>(c: &mut C) {
    let ks = [1, 9, 10, 11, 19, 20, 21, 31, 40, 41, 49, 50, 51, 55, 64, 65, 101, 127, 129, 200];
    let k = ks[c.choose("number of elements", ks.len())];
    let nodes = [k + 1, 3 * k / 2 + 7][c.choose("nodes", 2)];
    let conn = (0..k).map(|i| if i % 7 == 3 { vec![nodes - 1 - i] } else { vec![(i * 5 + 2) % nodes, nodes - 1 - i] }).filter(|e| e.len() == 1 || e[0] != e[1]);
    let f = Fake::new(c, "", 1, nodes, conn.collect());
    all(c, &f);
}
fn into<T: Real, C: Cx<T>>(c: &mut C) {
    // assembling into existing data adds to it; a reused assembler gives what a fresh one gives
    let sel = selections(4, 3);
    let s = 1 + c.choose("solution dimension", 2);
    let a = sel[c.choose("element 0", sel.len())].clone();
    let b = sel[(7 * a[0] + 5 * a.len()) % sel.len()].clone();
    let f = Fake::new(c, "f", s, 4, vec![a.clone(), b.clone()]);
    let g = Fake::new(c, "g", s, 4, vec![vec![3, 1], a, vec![0]]);
    let n = 4 * s;
    let wide = SparsityPattern::try_from_offsets_and_indices(n, n, (0..=n).map(|i| i * n).collect(), (0..n * n).map(|i| i % n).collect()).unwrap();
    let prev: Vec<T> = (0..n * n).map(|i| c.var(&format!("a{i}"), -B, B)).collect();
    let m0 = CsrMatrix::try_from_pattern_and_values(wide, prev).unwrap();
    let v0 = DVector::from_fn(n, |i, _| c.var(&format!("b{i}"), -B, B));
    let (ser, par) = (CsrAssembler::default(), CsrParAssembler::default());
    let (vs, vp) = (VectorAssembler::default(), VectorParAssembler::default());
    let (mut ms, mut mp, mut xs, mut xp) = (m0.clone(), m0.clone(), v0.clone(), v0.clone());
    let (mut wm, mut wv) = (dense(&m0), v0);
    for f in [&g, &f, &g] {
        let colors = color_nodes(f);
        ser.assemble_into_csr(&mut ms, f).unwrap();
        par.assemble_into_csr(&mut mp, &colors, f).unwrap();
        vs.assemble_vector_into(&mut xs, f).unwrap();
        vp.assemble_vector_into(&mut xp, &colors, f).unwrap();
        wm = scatter(f, wm);
        wv = scatter_vec(f, wv);
    }
    same_slice(c, "matrix accumulates", dense(&ms).as_slice(), wm.as_slice());
    same_slice(c, "matrix accumulates in parallel", dense(&mp).as_slice(), wm.as_slice());
    same_slice(c, "vector accumulates", xs.as_slice(), wv.as_slice());
    same_slice(c, "vector accumulates in parallel", xp.as_slice(), wv.as_slice());
}
fn local_global<T: Real, C: Cx<T>>(c: &mut C) {
    let s = 1 + c.choose("solution dimension", 3);
    let idx: Vec<usize> = (0..1 + c.choose("length", 3)).map(|k| c.choose(&format!("index {k}"), 4)).collect();
    let g = DVector::from_fn(4 * s, |i, _| c.var(&format!("g{i}"), -B, B));
    let l = DVector::from_fn(s * idx.len(), |i, _| c.var(&format!("l{i}"), -B, B));
    let mut o = l.clone();
    gather_global_to_local(&g, &mut o, &idx, s);
    let mut h = g.clone();
    add_local_to_global(&l, &mut h, &idx, s);
    let mut want = g.clone();
    for (k, i) in idx.iter().enumerate() {
        for r in 0..s {
            c.eq("gathered value", o[s * k + r], g[s * i + r]);
            want[s * i + r] += l[s * k + r];
        }
    }
    same_slice(c, "scattered values", h.as_slice(), want.as_slice());
}
/// Element assembler failing at one element.
struct Fail<'a, T: Real>(&'a Fake<T>, usize);
impl<'a, T: Real> ElementConnectivityAssembler for Fail<'a, T> {
    fn solution_dim(&self) -> usize {
        self.0.s
    }
    fn num_elements(&self) -> usize {
        self.0.conn.len()
    }
    fn num_nodes(&self) -> usize {
        self.0.nodes
    }
    fn element_node_count(&self, i: usize) -> usize {
        self.0.conn[i].len()
    }
    fn populate_element_nodes(&self, o: &mut [usize], i: usize) {
        o.copy_from_slice(&self.0.conn[i])
    }
}
impl<'a, T: Real> Fail<'a, T> {
    fn err(&self, i: usize) -> eyre::Result<()> {
        if i == self.1 {
            Err(eyre::eyre!("no"))
        } else {
            Ok(())
        }
    }
}
impl<'a, T: Real> ElementMatrixAssembler<T> for Fail<'a, T> {
    fn assemble_element_matrix_into(&self, i: usize, o: DMatrixViewMut<T>) -> eyre::Result<()> {
        self.err(i)?;
        self.0.assemble_element_matrix_into(i, o)
    }
}
impl<'a, T: Real> ElementVectorAssembler<T> for Fail<'a, T> {
    fn assemble_element_vector_into(&self, i: usize, o: DVectorViewMut<T>) -> eyre::Result<()> {
        self.err(i)?;
        self.0.assemble_element_vector_into(i, o)
    }
}
impl<'a, T: Real> ElementScalarAssembler<T> for Fail<'a, T> {
    fn assemble_element_scalar(&self, i: usize) -> eyre::Result<T> {
        self.err(i)?;
        self.0.assemble_element_scalar(i)
    }
}
fn failing<T: Real, C: Cx<T>>(c: &mut C) {
    let f = Fake::new(c, "", 1, 5, vec![vec![0, 1], vec![1, 2], vec![3, 4], vec![4, 0]]);
    let k = c.choose("failing element", 5);
    let a = Fail(&f, k);
    let colors = color_nodes(&f);
    let ok = k == 4;
    c.holds("failures are reported: matrix", CsrAssembler::default().assemble(&a).is_ok() == ok);
    c.holds("failures are reported: matrix in parallel", CsrParAssembler::default().assemble(&colors, &a).is_ok() == ok);
    c.holds("failures are reported: vector", VectorAssembler::default().assemble_vector(&a).is_ok() == ok);
    c.holds("failures are reported: vector in parallel", VectorParAssembler::default().assemble_vector(&colors, &a).is_ok() == ok);
    c.holds("failures are reported: scalar", assemble_scalar(&a).is_ok() == ok && par_assemble_scalar(&a).is_ok() == ok);
    // after a failure the same assemblers still work
    let (x, y) = (CsrAssembler::default(), VectorAssembler::default());
    let (xp, yp) = (CsrParAssembler::default(), VectorParAssembler::default());
    let _ = (x.assemble(&a), y.assemble_vector(&a), xp.assemble(&colors, &a), yp.assemble_vector(&colors, &a));
    let (wm, wv) = (scatter(&f, DMatrix::zeros(5, 5)), scatter_vec(&f, DVector::zeros(5)));
    same_slice(c, "matrix after a failure", dense(&x.assemble(&f).unwrap()).as_slice(), wm.as_slice());
    same_slice(c, "parallel matrix after a failure", dense(&xp.assemble(&colors, &f).unwrap()).as_slice(), wm.as_slice());
    same_slice(c, "vector after a failure", y.assemble_vector(&f).unwrap().as_slice(), wv.as_slice());
    same_slice(c, "parallel vector after a failure", yp.assemble_vector(&colors, &f).unwrap().as_slice(), wv.as_slice());
}

// ---- P16 ----

/// Nodes to constrain: subsets of n nodes, in decreasing order and with one repetition.
fn constrained<T: Real, C: Cx<T>>(c: &mut C, n: usize) -> Vec<usize> {
    let m = c.choose("constrained nodes", 1 << n);
    let mut v: Vec<usize> = (0..n).rev().filter(|i| m >> i & 1 == 1).collect();
    if v.len() == 2 {
        v.push(v[0]);
    }
    v
}
fn after<T: Real, C: Cx<T>>(c: &mut C, before: &DMatrix<T>, m: &DMatrix<T>, dofs: &[bool], stored: &dyn Fn(usize, usize) -> bool) -> Option<T> {
    let mut scale = None;
    for i in 0..m.nrows() {
        for j in 0..m.ncols() {
            if i == j && dofs[i] {
                if stored(i, i) {
                    match scale {
                        None => scale = Some(m[(i, i)]),
                        Some(s) => c.eq("constrained diagonal entries are equal", m[(i, i)], s),
                    }
                }
            } else if dofs[i] || dofs[j] {
                c.eq("coupling of a constrained dof vanishes", m[(i, j)], T::zero());
            } else {
                c.eq("free block is unchanged", m[(i, j)], before[(i, j)]);
            }
        }
    }
    scale
}
fn csr_bc<T: Real, C: Cx<T>>(c: &mut C, s: usize, free_diagonal: bool) {
    // three nodes; couplings of node pairs chosen; structurally symmetric
    let n = 3;
    let links = c.choose("couplings", 8);
    let linked = |i: usize, j: usize| {
        let (a, b) = (i.min(j), i.max(j));
        a == b || links >> (a + b - 1) & 1 == 1
    };
    let nodes = constrained(c, n);
    let (mut off, mut col, mut val) = (vec![0], vec![], vec![]);
    for i in 0..s * n {
        for j in 0..s * n {
            if linked(i / s, j / s) {
                col.push(j);
                val.push(if i == j && i > 1 && !free_diagonal { c.int(i as i64) } else { c.var(&format!("a{i}_{j}"), -B, B) });
            }
        }
        off.push(col.len());
    }
    let p = SparsityPattern::try_from_offsets_and_indices(s * n, s * n, off, col).unwrap();
    let mut m = CsrMatrix::try_from_pattern_and_values(p.clone(), val).unwrap();
    let before = dense(&m);
    apply_homogeneous_dirichlet_bc_csr(&mut m, &nodes, s);
    c.holds("the pattern is unchanged", *m.pattern() == p);
    let dofs: Vec<bool> = (0..s * n).map(|i| nodes.contains(&(i / s))).collect();
    if let Some(x) = after(c, &before, &dense(&m), &dofs, &|i, j| linked(i / s, j / s)) {
        scale_ok(c, &before, x, false);
    }
}
/// Larger systems: a band with distant couplings, many constrained nodes in any order, repeated ones included.
fn large_bc<T: Real, C: Cx<T>>(c: &mut C) {
    let s = 1 + c.choose("components", 3);
    let n = [12, 37][c.choose("nodes", 2)];
    let linked = |i: usize, j: usize| i.abs_diff(j) < 3 || i.abs_diff(j) == 9 || i + j == n - 1;
    let nodes: Vec<usize> = match c.choose("constrained", 4) {
        0 => (0..n).rev().step_by(3).collect(),
        1 => (0..n / 2).chain(2..5).collect(),
        2 => (0..n).collect(),
        _ => vec![n - 1, 0, n - 1, n / 3],
    };
    let x: [T; 3] = std::array::from_fn(|i| c.var(&format!("x{i}"), -B, B));
    let (mut off, mut col, mut val) = (vec![0], vec![], vec![]);
    for i in 0..s * n {
        for j in (0..s * n).filter(|j| linked(i / s, j / s)) {
            col.push(j);
            val.push(if i == j { c.int(1 + (i % 5) as i64) } else { x[(i + j) % 3] * c.int((3 * i + j) as i64) });
        }
        off.push(col.len());
    }
    let p = SparsityPattern::try_from_offsets_and_indices(s * n, s * n, off, col).unwrap();
    let mut m = CsrMatrix::try_from_pattern_and_values(p.clone(), val).unwrap();
    let before = dense(&m);
    let mut d = before.clone();
    apply_homogeneous_dirichlet_bc_csr(&mut m, &nodes, s);
    match s {
        1 => apply_homogeneous_dirichlet_bc_matrix::<T, U1>(&mut d, &nodes),
        2 => apply_homogeneous_dirichlet_bc_matrix::<T, U2>(&mut d, &nodes),
        _ => apply_homogeneous_dirichlet_bc_matrix::<T, U3>(&mut d, &nodes),
    }
    c.holds("the pattern is unchanged", *m.pattern() == p);
    let dofs: Vec<bool> = (0..s * n).map(|i| nodes.contains(&(i / s))).collect();
    if let Some(x) = after(c, &before, &dense(&m), &dofs, &|i, j| linked(i / s, j / s)) {
        scale_ok(c, &before, x, false);
    }
    if let Some(x) = after(c, &before, &d, &dofs, &|_, _| true) {
        scale_ok(c, &before, x, true);
    }
    let b = DVector::from_fn(s * n, |i, _| x[i % 3] + c.int(i as i64));
    let mut v = b.clone();
    apply_homogeneous_dirichlet_bc_rhs(&mut v, &nodes, s);
    for i in 0..s * n {
        c.eq("right-hand side", v[i], if dofs[i] { T::zero() } else { b[i] });
    }
}
/// The scale is positive, and no larger than the largest diagonal magnitude (one if the diagonal vanishes).
fn scale_ok<T: Real, C: Cx<T>>(c: &mut C, before: &DMatrix<T>, x: T, dense: bool) {
    let d: Vec<T> = (0..before.nrows()).map(|i| before[(i, i)]).collect();
    if d.iter().all(|v| *v == T::zero()) {
        c.eq("scale of a zero diagonal", x, if dense { T::zero() } else { T::one() });
    } else {
        c.lt("scale is positive", T::zero(), x);
        let s = d.iter().fold(T::zero(), |s, v| s + v.abs());
        c.le("scale is at most the diagonal's magnitude", x, s);
    }
}
fn dense_bc<T: Real, C: Cx<T>>(c: &mut C, s: usize) {
    let n = 3;
    let nodes = constrained(c, n);
    let mut m = DMatrix::from_fn(s * n, s * n, |i, j| c.var(&format!("a{i}_{j}"), -B, B));
    let before = m.clone();
    match s {
        1 => apply_homogeneous_dirichlet_bc_matrix::<T, U1>(&mut m, &nodes),
        2 => apply_homogeneous_dirichlet_bc_matrix::<T, U2>(&mut m, &nodes),
        _ => apply_homogeneous_dirichlet_bc_matrix::<T, U3>(&mut m, &nodes),
    }
    let dofs: Vec<bool> = (0..s * n).map(|i| nodes.contains(&(i / s))).collect();
    if let Some(x) = after(c, &before, &m, &dofs, &|_, _| true) {
        scale_ok(c, &before, x, true);
    }
}
fn rhs_bc<T: Real, C: Cx<T>>(c: &mut C) {
    let s = 1 + c.choose("solution dimension", 3);
    let nodes = constrained(c, 4);
    let before = DVector::from_fn(4 * s, |i, _| c.var(&format!("b{i}"), -B, B));
    let mut v = before.clone();
    apply_homogeneous_dirichlet_bc_rhs(&mut v, &nodes, s);
    for i in 0..4 * s {
        c.eq("right-hand side", v[i], if nodes.contains(&(i / s)) { T::zero() } else { before[i] });
    }
}
/// The constrained system has the solution of the reduced one.
fn solution<T: Real, C: Cx<T>>(c: &mut C) {
    // a 1D bar of two elements with stiffness k0, k1, clamped at a chosen end
    let (k0, k1) = (c.var("k0", 0.25, B), c.var("k1", 0.25, B));
    let mut f = Fake::new(c, "", 1, 3, vec![vec![1, 0], vec![1, 2]]);
    f.mats = [k0, k1].map(|k| Matrix2::new(k, -k, -k, k)).map(|m| DMatrix::from_fn(2, 2, |i, j| m[(i, j)])).to_vec();
    let mut m = CsrAssembler::default().assemble(&f).unwrap();
    let mut b = VectorAssembler::default().assemble_vector(&f).unwrap();
    let end = 2 * c.choose("clamped end", 2);
    let b0 = b.clone();
    apply_homogeneous_dirichlet_bc_csr(&mut m, &[end], 1);
    apply_homogeneous_dirichlet_bc_rhs(&mut b, &[end], 1);
    let far = 2 - end;
    let (ka, kb) = if end == 0 { (k0, k1) } else { (k1, k0) };
    let mut u = DVector::zeros(3);
    u[1] = (b0[1] + b0[far]) / ka;
    u[far] = u[1] + b0[far] / kb;
    let r = dense(&m) * &u;
    same_slice(c, "the bar's displacement solves the constrained system", r.as_slice(), b.as_slice());
}

pub fn list() -> Vec<Harness> {
    let mut v = vec![];
    h!(v, "P15", "pairs_s1", Quick, "two elements with every ordered choice of 1-2 of 4 nodes", |c| pairs(c, 1, 4, 2));
    h!(v, "P15", "pairs_s2", Quick, "two elements with every ordered choice of 1-2 of 4 nodes, two components", |c| pairs(c, 2, 4, 2));
    h!(v, "P15", "triples_s1", Quick, "two elements with every ordered choice of 1-3 of 4 nodes", |c| pairs(c, 1, 4, 3));
    h!(v, "P15", "triples_s2", Thorough, "two elements with every ordered choice of 1-3 of 4 nodes, two components", |c| pairs(c, 2, 4, 3));
    h!(v, "P15", "triples5_s1", Thorough, "two elements with every ordered choice of 1-3 of 5 nodes", |c| pairs(c, 1, 5, 3));
    h!(v, "P15", "three", Quick, "three two-node elements on three nodes, two components", |c| three(c));
    h!(v, "P15", "many", Quick, "meshes beyond the batch size, isolated nodes, no elements", |c| many(c));
    h!(v, "P15", "quads_s1", Quick, "a four-node element in any order beside a five-node element", |c| quads(c, 1));
    h!(v, "P15", "quads_s2", Thorough, "a four-node element in any order beside a five-node element, two components", |c| quads(c, 2));
    h!(v, "P15", "large", Quick, "elements of up to 27 nodes in unsorted orders", |c| large(c));
    h!(v, "P15", "counts", Quick, "element counts around multiples of the batch sizes", |c| counts(c));
    h!(v, "P15", "into", Quick, "assembling into existing data with reused assemblers", |c| into(c));
    h!(v, "P15", "local_global", Quick, "gather and scatter", |c| local_global(c));
    h!(v, "P15", "failing", Quick, "failing elements", |c| failing(c));
    h!(v, "P16", "csr_s1", Quick, "sparse matrix, one component, any symmetric pattern", |c| csr_bc(c, 1, true));
    h!(v, "P16", "csr_s2", Quick, "sparse matrix, two components, any symmetric pattern", |c| csr_bc(c, 2, false));
    h!(v, "P16", "csr_s3", Thorough, "sparse matrix, three components, any symmetric pattern", |c| csr_bc(c, 3, false));
    h!(v, "P16", "dense_s1", Quick, "dense matrix, one component", |c| dense_bc(c, 1));
    h!(v, "P16", "dense_s2", Quick, "dense matrix, two components", |c| dense_bc(c, 2));
    h!(v, "P16", "dense_s3", Thorough, "dense matrix, three components", |c| dense_bc(c, 3));
    h!(v, "P16", "rhs", Quick, "right-hand side", |c| rhs_bc(c));
    h!(v, "P16", "large", Quick, "larger systems", |c| large_bc(c));
    h!(v, "P16", "solution", Quick, "clamped bar", |c| solution(c));
    v
}
