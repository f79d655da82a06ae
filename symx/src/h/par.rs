//! P18 (disjoint subsets, coloring, parallel access), P19 (nested vectors), P20 (rows of sparse matrices).
use super::util::*;
use crate::h;
use fenris_nested_vec::NestedVec;
use fenris_paradis::adapter::BlockAdapter;
use fenris_paradis::coloring::sequential_greedy_coloring;
use fenris_paradis::{DisjointSubsets, ParallelIndexedAccess, ParallelIndexedCollection, SubsetAccess};
use fenris_sparse::{CsrParallelRowAccess, ParallelCsrRowCollection};
use nalgebra_sparse::pattern::SparsityPattern;
use nalgebra_sparse::CsrMatrix;
use rayon::iter::plumbing::{Producer, ProducerCallback};
use rayon::iter::{IndexedParallelIterator, ParallelIterator};
use std::collections::BTreeSet;

fn set(s: &[usize]) -> BTreeSet<usize> {
    s.iter().copied().collect()
}
/// `n` arbitrary index lists (duplicates and empty lists included).
fn lists<T: Real, C: Cx<T>>(c: &mut C, n: usize, pool: &[&[usize]]) -> Vec<Vec<usize>> {
    (0..n).map(|i| pool[c.choose(&format!("subset {i}"), pool.len())].to_vec()).collect()
}
const POOL: [&[usize]; 7] = [&[], &[0], &[1, 1], &[2, 0], &[1, 3], &[4], &[3, 2, 4]];
const SMALL: [&[usize]; 5] = [&[], &[0, 2], &[1], &[2, 3, 3], &[1, 4]];

fn disjoint(l: &[Vec<usize>]) -> bool {
    (0..l.len()).all(|i| (0..i).all(|j| set(&l[i]).is_disjoint(&set(&l[j]))))
}

/// DisjointSubsets are built from lists exactly when no index occurs in two of them, and keep lists and labels.
fn construction<T: Real, C: Cx<T>>(c: &mut C) {
    let n = c.choose("number", 4);
    let l = lists(c, n, &SMALL);
    let labels: Vec<usize> = (0..n).map(|i| 10 * (i + 1)).collect();
    let r = DisjointSubsets::try_from_disjoint_subsets(&l, labels.clone());
    c.holds("accepted exactly when disjoint", r.is_ok() == disjoint(&l));
    if let Ok(r) = r {
        c.holds("labels", r.labels() == labels.as_slice());
        c.holds("subsets", Vec::<Vec<usize>>::from(r.subsets()) == l);
        c.holds("into subsets", Vec::<Vec<usize>>::from(r.into_subsets()) == l);
    }
}
/// Colors partition the subsets, each color is disjoint, and no more colors than needed by a greedy coloring.
fn coloring<T: Real, C: Cx<T>>(c: &mut C, n: usize, pool: &[&[usize]]) {
    let l = lists(c, n, pool);
    let colors = sequential_greedy_coloring(&NestedVec::from(&l));
    let mut of = vec![None; n];
    for (k, col) in colors.iter().enumerate() {
        c.holds("a color is not empty", col.subsets().len() > 0);
        c.holds("one label per subset", col.subsets().len() == col.labels().len());
        let members: Vec<Vec<usize>> = Vec::from(col.subsets());
        c.holds("the subsets of a color are disjoint", disjoint(&members));
        for (s, lab) in members.iter().zip(col.labels()) {
            c.holds("labels are the indices of the subsets", *lab < n && of[*lab].is_none() && *s == l[*lab]);
            if *lab < n {
                of[*lab] = Some(k);
            }
        }
    }
    c.holds("every subset has a color", of.iter().all(|k| k.is_some()));
    // greedy: at most 1 + (number of conflicting subsets) colors are needed for each subset
    for i in 0..n {
        let degree = (0..n).filter(|j| *j != i && !set(&l[i]).is_disjoint(&set(&l[*j]))).count();
        c.holds("no more colors than conflicts require", of[i].map_or(true, |k| k <= degree));
    }
}

/// Drives a producer the way a work-stealing scheduler may: arbitrary splits, arbitrary interleaving of the parts.
struct Schedule<'c, C, T>(&'c mut C, usize, bool, std::marker::PhantomData<T>);
impl<'c, I, T: Real, C: Cx<T>> ProducerCallback<I> for Schedule<'c, C, T> {
    type Output = Vec<I>;
    fn callback<P: Producer<Item = I>>(self, p: P) -> Vec<I> {
        let Schedule(c, n, whole_order, _) = self;
        let mut todo = vec![(p, n)];
        let mut leaves = vec![];
        while let Some((p, n)) = todo.pop() {
            // 0: run this part sequentially, k: split off the first k - 1 (or, at the end, all) subsets
            let k = if n == 0 || leaves.len() + todo.len() >= 2 { 0 } else { c.choose("split", n + 2) };
            if k == 0 {
                leaves.push((p.into_iter(), n));
            } else {
                let (a, b) = p.split_at(k - 1);
                if k - 1 == n || k == 1 {
                    // degenerate splits, as made by take() and skip()
                    leaves.push((a.into_iter(), k - 1));
                    leaves.push((b.into_iter(), n + 1 - k));
                } else {
                    todo.push((b, n + 1 - k));
                    todo.push((a, k - 1));
                }
            }
        }
        let mut out = vec![];
        loop {
            for (it, n) in &leaves {
                c.holds("parts know their length", it.len() == *n && it.size_hint() == (*n, Some(*n)));
            }
            let open: Vec<usize> = (0..leaves.len()).filter(|i| leaves[*i].1 > 0).collect();
            if open.is_empty() {
                break;
            }
            let i = if whole_order { open[c.choose("part", open.len())] } else { open[open.len() - 1] };
            let back = c.choose("end", 2) == 1;
            let (it, n) = &mut leaves[i];
            let x = if back { it.next_back() } else { it.next() };
            *n -= 1;
            match x {
                Some(x) => out.push(x),
                None => c.holds("a part yields as many items as it announces", false),
            }
        }
        for (it, _) in &mut leaves {
            c.holds("exhausted parts stay empty", it.next().is_none() && it.next_back().is_none());
        }
        out
    }
}
fn drive<T: Real, C: Cx<T>, P: IndexedParallelIterator>(c: &mut C, p: P, whole: bool) -> Vec<P::Item> {
    let n = p.len();
    p.with_producer(Schedule(c, n, whole, std::marker::PhantomData))
}
const DISJ: [&[&[usize]]; 6] = [
    &[],
    &[&[]],
    &[&[1, 0, 1]],
    &[&[2], &[], &[0, 3]],
    &[&[3, 1], &[0], &[2, 4]],
    &[&[], &[]],
];
fn family<T: Real, C: Cx<T>>(c: &mut C) -> (Vec<Vec<usize>>, Vec<usize>) {
    let f = DISJ[c.choose("subsets", DISJ.len())];
    (f.iter().map(|s| s.to_vec()).collect(), (0..f.len()).map(|k| 7 + 3 * k).collect())
}
/// In every schedule, each subset is visited once with its label and indices, and reads and writes reach exactly its
/// entries: reading everything before anything is written, the result is the sequential one.
fn schedules<T: Real, C: Cx<T>>(c: &mut C, whole: bool) {
    let (l, labels) = family(c);
    let ds = DisjointSubsets::try_from_disjoint_subsets(&l, labels.clone()).unwrap();
    let old: Vec<T> = (0..6).map(|i| c.var(&format!("x{i}"), -8.0, 8.0)).collect();
    let f: Vec<T> = (0..l.len()).map(|i| c.var(&format!("f{i}"), -8.0, 8.0)).collect();
    let mut data = old.clone();
    let mut items = drive(c, ds.subsets_par_iter(data.as_mut_slice()), whole);
    let mut seen = BTreeSet::new();
    let mut reads: Vec<Vec<T>> = vec![];
    for s in &items {
        let k = labels.iter().position(|l| *l == s.label());
        c.holds("known label", k.is_some());
        let k = k.unwrap();
        c.holds("each subset is visited once", seen.insert(k));
        c.holds("its indices", s.global_indices() == l[k].as_slice() && s.len() == l[k].len());
        reads.push((0..s.len()).map(|i| *s.get(i)).collect());
        for i in 0..s.len() {
            c.eq("reads reach the entry", *s.get(i), old[l[k][i]]);
        }
    }
    c.holds("all subsets are visited", seen.len() == l.len());
    for (s, r) in items.iter_mut().zip(&reads) {
        let k = labels.iter().position(|l| *l == s.label()).unwrap();
        for i in 0..s.len() {
            *s.get_mut(i) = f[k] * r[i] + T::one();
        }
    }
    drop(items);
    for (i, x) in data.iter().enumerate() {
        let want = match (0..l.len()).find(|k| l[*k].contains(&i)) {
            Some(k) => f[k] * old[i] + T::one(),
            None => old[i],
        };
        c.eq("result of the schedule", *x, want);
    }
}
/// The parallel iterator composes with rayon's indexed adaptors, which cut producers at their ends.
fn adaptors<T: Real, C: Cx<T>>(c: &mut C) {
    let (l, labels) = family(c);
    let ds = DisjointSubsets::try_from_disjoint_subsets(&l, labels.clone()).unwrap();
    let mut d: Vec<T> = (0..6).map(|i| c.var(&format!("x{i}"), -8.0, 8.0)).collect();
    let n = l.len();
    let k = c.choose("k", n + 2);
    let get = |s: SubsetAccess<_>| s.label();
    let cut = k.min(n);
    let d = d.as_mut_slice();
    match c.choose("adaptor", 6) {
        0 => {
            let v: Vec<usize> = ds.subsets_par_iter(d).take(k).map(get).collect();
            c.holds("take", v == labels[..cut]);
        }
        1 => {
            let v: Vec<usize> = ds.subsets_par_iter(d).skip(k).map(get).collect();
            c.holds("skip", v == labels[cut..]);
        }
        2 => {
            let v: Vec<usize> = ds.subsets_par_iter(d).rev().map(get).collect();
            c.holds("rev", v == labels.iter().rev().copied().collect::<Vec<_>>());
        }
        3 => {
            let v: Vec<(usize, usize)> = ds.subsets_par_iter(d).enumerate().map(|(i, s)| (i, s.label())).collect();
            c.holds("enumerate", v == labels.iter().copied().enumerate().collect::<Vec<_>>());
        }
        4 => {
            let p = ds.subsets_par_iter(d);
            c.holds("length", p.len() == n && p.opt_len() == Some(n));
            let v: Vec<Vec<usize>> = p.chunks(k + 1).map(|s| s.into_iter().map(get).collect()).collect();
            c.holds("chunks", v == labels.chunks(k + 1).map(|s| s.to_vec()).collect::<Vec<_>>());
        }
        _ => {
            let other: Vec<usize> = (0..k).collect();
            let v: Vec<(usize, usize)> = ds.subsets_par_iter(d).zip(other).map(|(s, i)| (s.label(), i)).collect();
            c.holds("zip", v == labels.iter().copied().zip(0..k).collect::<Vec<_>>());
        }
    }
}
/// Subsets which do not fit into the storage are refused; all others are accepted.
fn bounds<T: Real, C: Cx<T>>(c: &mut C) {
    let l = lists(c, 2, &[&[], &[0], &[2], &[1, 3], &[4, 3]]);
    let ds = match c.choose("built by", 2) {
        0 => match DisjointSubsets::try_from_disjoint_subsets(&l, vec![0, 1]) {
            Ok(d) => d,
            Err(_) => return,
        },
        // the first color of a coloring holds at least the first list
        _ => sequential_greedy_coloring(&NestedVec::from(&l)).swap_remove(0),
    };
    let len = c.choose("length", 6);
    let block = 1 + c.choose("block size", 2);
    let mut d: Vec<T> = vec![T::zero(); len * block];
    let need = Vec::<Vec<usize>>::from(ds.subsets()).iter().flatten().max().map_or(0, |m| m + 1);
    let p = if block == 1 {
        panics(|| drop(ds.subsets_par_iter(d.as_mut_slice())))
    } else {
        panics(|| drop(ds.subsets_par_iter(&mut BlockAdapter::with_block_size(d.as_mut_slice(), block))))
    };
    c.holds("refused exactly when an index is out of bounds", p == (need > len));
}
/// Blocks: entry j of block i is entry i * size + j of the storage.
fn blocks<T: Real, C: Cx<T>>(c: &mut C) {
    let size = 1 + c.choose("block size", 3);
    let (l, labels) = family(c);
    let ds = DisjointSubsets::try_from_disjoint_subsets(&l, labels.clone()).unwrap();
    let old: Vec<T> = (0..6 * size).map(|i| c.var(&format!("x{i}"), -8.0, 8.0)).collect();
    let mut data = old.clone();
    let mut ad = BlockAdapter::with_block_size(data.as_mut_slice(), size);
    c.holds("number of blocks", ParallelIndexedCollection::len(&ad) == 6);
    let mut items = drive(c, ds.subsets_par_iter(&mut ad), false);
    for s in &mut items {
        let k = labels.iter().position(|l| *l == s.label()).unwrap();
        for i in 0..s.len() {
            let first = i == l[k].iter().position(|x| *x == l[k][i]).unwrap();
            let b = s.get(i);
            c.holds("block length", b.len() == size && b.get(size).is_none());
            for j in 0..size {
                if first {
                    c.eq("block entry", *b.index(j), old[l[k][i] * size + j]);
                    c.eq("block entry", *b.get(j).unwrap(), old[l[k][i] * size + j]);
                }
            }
            let mut b = s.get_mut(i);
            c.holds("block length", b.len() == size && b.get_mut(size).is_none() && b.get(size).is_none());
            for j in 0..size {
                let v = *b.index(j);
                *b.index_mut(j) = v + c.int((10 * k + j) as i64);
            }
        }
    }
    drop(items);
    for i in 0..6 {
        for j in 0..size {
            let mut want = old[i * size + j];
            for k in 0..l.len() {
                for x in &l[k] {
                    if *x == i {
                        want += c.int((10 * k + j) as i64);
                    }
                }
            }
            c.eq("updated storage", data[i * size + j], want);
        }
    }
    let mut odd: Vec<T> = vec![T::zero(); 5 * size + 1];
    c.holds("ragged blocks are refused", size == 1 || panics(|| drop(BlockAdapter::with_block_size(odd.as_mut_slice(), size))));
}

/// An arbitrary history of a nested vector, in step with a plain vector of vectors.
fn history<T: Real, C: Cx<T>>(c: &mut C, steps: usize) {
    let mut v = NestedVec::<T>::new();
    let mut m: Vec<Vec<T>> = vec![];
    let mut fresh = 0;
    for step in 0..steps {
        let mut arr = |c: &mut C, n: usize| -> Vec<T> {
            (0..n)
                .map(|_| {
                    fresh += 1;
                    c.var(&format!("e{fresh}"), -8.0, 8.0)
                })
                .collect()
        };
        match c.choose(&format!("op {step}"), 9) {
            k @ 0..=2 => {
                let a = arr(c, k);
                v.push(&a);
                m.push(a);
            }
            k @ 3..=4 => {
                let a = arr(c, 2 * (k - 3));
                let mut b = v.begin_array();
                for (i, x) in a.iter().enumerate() {
                    c.holds("count", b.count() == i);
                    b.push_single(*x);
                }
                c.holds("count", b.count() == a.len());
                drop(b);
                m.push(a);
            }
            5 => {
                let x = arr(c, 1)[0];
                let (a, b) = (v.last_mut(), m.last_mut());
                c.holds("last exists", a.is_some() == b.is_some());
                if let (Some(a), Some(b)) = (a, b) {
                    a.iter_mut().for_each(|y| *y = x);
                    b.iter_mut().for_each(|y| *y = x);
                }
            }
            6 => {
                let x = arr(c, 1)[0];
                let i = m.len() / 2;
                let (a, b) = (v.get_mut(i), m.get_mut(i));
                c.holds("middle exists", a.is_some() == b.is_some());
                if let (Some(a), Some(b)) = (a, b) {
                    c.holds("length", a.len() == b.len());
                    if let (Some(a), Some(b)) = (a.last_mut(), b.last_mut()) {
                        *a = x;
                        *b = x;
                    }
                }
            }
            7 => {
                let x = arr(c, 1)[0];
                let (a, b) = (v.first_mut(), m.first_mut());
                c.holds("first exists", a.is_some() == b.is_some());
                if let (Some(a), Some(b)) = (a, b) {
                    a.iter_mut().for_each(|y| *y = x);
                    b.iter_mut().for_each(|y| *y = x);
                }
            }
            _ => {
                v.clear();
                m.clear();
            }
        }
    }
    let show = |c: &mut C, v: &NestedVec<T>| {
        c.holds("number of arrays", v.len() == m.len() && v.iter().count() == m.len());
        c.holds("number of elements", v.total_num_elements() == m.iter().map(|a| a.len()).sum::<usize>());
        c.holds("nothing past the end", v.get(m.len()).is_none() && v.get(usize::MAX).is_none());
        for (i, a) in m.iter().enumerate() {
            same_slice(c, "array", v.get(i).unwrap(), a);
        }
        for (a, b) in v.iter().zip(&m) {
            same_slice(c, "iterated array", a, b);
        }
        let flat: Vec<T> = v.iter_array_elements().copied().collect();
        same_slice(c, "elements in order", &flat, &m.concat());
        c.holds("ends", v.first().is_some() == !m.is_empty() && v.last().is_some() == !m.is_empty());
        if let (Some(f), Some(l)) = (v.first(), v.last()) {
            same_slice(c, "first", f, &m[0]);
            same_slice(c, "last", l, m.last().unwrap());
        }
        let back: Vec<Vec<T>> = Vec::from(v);
        c.holds("converted", back.len() == m.len());
        for (a, b) in back.iter().zip(&m) {
            same_slice(c, "converted array", a, b);
        }
    };
    show(c, &v);
    let mut w = v.clone();
    show(c, &w);
    show(c, &NestedVec::from(&m));
    show(c, &NestedVec::from(m.clone()));
    // equal exactly to vectors of the same arrays, however they came about
    let fresh = NestedVec::from(&m);
    c.holds("equality", v == fresh && fresh == v && w == v);
    w.push(&[]);
    c.holds("one more array", w != v && v != w);
    if let Some(k) = m.iter().position(|a| !a.is_empty()) {
        let mut parts = m.clone();
        let half = parts[k].len() / 2;
        let tail = parts[k].split_off(half);
        parts.insert(k + 1, tail);
        c.holds("the same elements in other arrays", v != NestedVec::from(&parts));
    }
    show(c, &v);
}

fn csr<T: Real, C: Cx<T>>(c: &mut C) -> (CsrMatrix<T>, Vec<Vec<usize>>) {
    let pats: [&[&[usize]]; 4] = [
        &[&[0, 2], &[], &[1, 2, 3], &[3], &[0]],
        &[&[], &[0], &[], &[1, 2], &[]],
        &[&[0, 1, 2, 3], &[0, 1, 2, 3], &[0, 1, 2, 3], &[0, 1, 2, 3], &[0, 1, 2, 3]],
        &[&[3], &[2], &[1], &[0], &[3]],
    ];
    let p = pats[c.choose("pattern", 4)];
    let rows: Vec<Vec<usize>> = p.iter().map(|r| r.to_vec()).collect();
    let mut off = vec![0];
    let mut idx = vec![];
    for r in &rows {
        idx.extend(r);
        off.push(idx.len());
    }
    let vals: Vec<T> = (0..idx.len()).map(|i| c.var(&format!("a{i}"), -8.0, 8.0)).collect();
    let pat = SparsityPattern::try_from_offsets_and_indices(5, 4, off, idx).unwrap();
    (CsrMatrix::try_from_pattern_and_values(pat, vals).unwrap(), rows)
}
fn rows_access<T: Real, C: Cx<T>>(c: &mut C) {
    let (mut m, rows) = csr(c);
    let old = m.values().to_vec();
    let off = m.row_offsets().to_vec();
    let f = c.var("f", -8.0, 8.0);
    let ds = DisjointSubsets::try_from_disjoint_subsets(&vec![vec![3, 0], vec![], vec![4, 1]], vec![5, 6, 8]).unwrap();
    let touched = [3, 0, 4, 1];
    {
        let mut col = ParallelCsrRowCollection(&mut m);
        c.holds("one record per row", ParallelIndexedCollection::len(&col) == 5);
        let mut items = drive(c, ds.subsets_par_iter(&mut col), false);
        for s in &mut items {
            let ids = s.global_indices().to_vec();
            for (i, r) in ids.iter().enumerate() {
                let row = s.get(i);
                c.holds("columns of a row", row.col_indices() == rows[*r].as_slice() && row.nnz() == rows[*r].len());
                same_slice(c, "values of a row", row.values(), &old[off[*r]..off[*r + 1]]);
                let mut row = s.get_mut(i);
                c.holds("entries of a row", row.nnz() == rows[*r].len());
                let half = row.nnz() / 2;
                for v in &mut row.values_mut()[..half] {
                    *v *= f;
                }
                let (cols, vals) = row.cols_and_values_mut();
                c.holds("columns of a row", cols == rows[*r].as_slice() && vals.len() == cols.len());
                for v in &mut vals[half..] {
                    *v *= f;
                }
            }
        }
    }
    for r in 0..5 {
        for k in off[r]..off[r + 1] {
            let w = if touched.contains(&r) { old[k] * f } else { old[k] };
            c.eq("scaled rows", m.values()[k], w);
        }
    }
    let mut col = ParallelCsrRowCollection(&mut m);
    let a: CsrParallelRowAccess<T> = unsafe { col.create_access() };
    let b = a.clone();
    let r = unsafe { (a.get_unchecked(2), b.get_unchecked(2)) };
    same_slice(c, "clones see the same row", r.0.values(), &old[off[2]..off[3]]);
    same_slice(c, "clones see the same row", r.1.values(), &old[off[2]..off[3]]);
}
/// Color by color, with all reads of a color before its writes and its subsets in either order, adding contributions
/// to shared entries loses none of them.
fn colored_scatter<T: Real, C: Cx<T>>(c: &mut C) {
    let l = lists(c, 3, &[&[], &[0], &[2, 0], &[1, 3], &[3, 2, 1]]);
    let w: Vec<Vec<T>> = (0..3).map(|k| (0..l[k].len()).map(|i| c.var(&format!("w{k}.{i}"), -8.0, 8.0)).collect()).collect();
    let old: Vec<T> = (0..4).map(|i| c.var(&format!("x{i}"), -8.0, 8.0)).collect();
    let mut x = old.clone();
    let back = c.choose("order", 2) == 1;
    for col in sequential_greedy_coloring(&NestedVec::from(&l)) {
        let p = col.subsets_par_iter(x.as_mut_slice());
        let mut items: Vec<_> = p.with_producer(InOrder);
        if back {
            items.reverse();
        }
        let sums: Vec<Vec<T>> = items.iter().map(|s| (0..s.len()).map(|i| *s.get(i) + w[s.label()][i]).collect()).collect();
        for (s, v) in items.iter_mut().zip(&sums) {
            for i in 0..s.len() {
                *s.get_mut(i) = v[i];
            }
        }
    }
    for i in 0..4 {
        let mut want = old[i];
        for k in 0..3 {
            for (p, j) in l[k].iter().enumerate() {
                if *j == i {
                    want += w[k][p];
                }
            }
        }
        c.eq("no contribution is lost", x[i], want);
    }
}
struct InOrder;
impl<I> ProducerCallback<I> for InOrder {
    type Output = Vec<I>;
    fn callback<P: Producer<Item = I>>(self, p: P) -> Vec<I> {
        p.into_iter().collect()
    }
}
/// Splits in halves, as rayon does, down to parts of at most the given size; the parts run first to last or last to first.
struct Halves {
    n: usize,
    grain: usize,
    back: bool,
}
impl<I> ProducerCallback<I> for Halves {
    type Output = Vec<I>;
    fn callback<P: Producer<Item = I>>(self, p: P) -> Vec<I> {
        if self.n <= self.grain {
            let mut v: Vec<I> = p.into_iter().collect();
            if self.back {
                v.reverse();
            }
            return v;
        }
        let k = self.n / 2;
        let (a, b) = p.split_at(k);
        let mut a = Halves { n: k, ..self }.callback(a);
        let mut b = Halves { n: self.n - k, ..self }.callback(b);
        if self.back {
            std::mem::swap(&mut a, &mut b);
        }
        a.extend(b);
        a
    }
}
/// The cells of a larger grid: coloring, and adding contributions color by color.
fn large<T: Real, C: Cx<T>>(c: &mut C) {
    let (nx, ny) = [(11, 11), (40, 3), (200, 1)][c.choose("grid", 3)];
    let grain = [1, 5, 64][c.choose("grain", 3)];
    let back = c.choose("order", 2) == 1;
    let l: Vec<Vec<usize>> = (0..nx * ny)
        .map(|k| {
            let i = k / nx * (nx + 1) + k % nx;
            vec![i, i + 1, i + nx + 2, i + nx + 1]
        })
        .collect();
    let (n, m) = (l.len(), (nx + 1) * (ny + 1));
    let colors = sequential_greedy_coloring(&NestedVec::from(&l));
    let mut of = vec![usize::MAX; n];
    let f = c.var("f", -8.0, 8.0);
    let x0 = c.var("x", -8.0, 8.0);
    let mut x: Vec<T> = (0..m).map(|i| x0 * c.int(i as i64)).collect();
    let mut want = x.clone();
    for (k, col) in colors.iter().enumerate() {
        let subsets: Vec<Vec<usize>> = Vec::from(col.subsets());
        c.holds("one label per subset", subsets.len() == col.labels().len());
        let mut seen = BTreeSet::new();
        for (s, lab) in subsets.iter().zip(col.labels()) {
            c.holds("labels are the indices of the subsets", *lab < n && of[*lab] == usize::MAX && *s == l[*lab]);
            of[*lab] = k;
            c.holds("the subsets of a color are disjoint", s.iter().all(|i| seen.insert(*i)));
        }
        let p = col.subsets_par_iter(x.as_mut_slice());
        let len = p.len();
        let mut items = p.with_producer(Halves { n: len, grain, back });
        let mut sums: Vec<Vec<T>> = vec![];
        for s in &items {
            sums.push((0..s.len()).map(|i| *s.get(i) + f * c.int((s.label() + i) as i64)).collect());
        }
        for (s, v) in items.iter_mut().zip(&sums) {
            for i in 0..s.len() {
                *s.get_mut(i) = v[i];
            }
        }
    }
    c.holds("every subset has a color", of.iter().all(|k| *k != usize::MAX));
    for (k, s) in l.iter().enumerate() {
        for (i, j) in s.iter().enumerate() {
            want[*j] += f * c.int((k + i) as i64);
        }
    }
    for i in 0..m {
        c.eq("no contribution is lost", x[i], want[i]);
    }
}
/// A longer nested vector of arrays of 0-11 elements, built by each of its two ways in turn.
fn long<T: Real, C: Cx<T>>(c: &mut C) {
    let n = [40, 100][c.choose("arrays", 2)];
    let way = c.choose("way", 3);
    let f = c.var("f", -8.0, 8.0);
    let m: Vec<Vec<T>> = (0..n).map(|k| (0..(k * 7) % 12).map(|i| f * c.int((12 * k + i) as i64)).collect()).collect();
    let mut v = NestedVec::<T>::new();
    for (k, a) in m.iter().enumerate() {
        if way == 0 || way == 1 && k % 2 == 0 {
            v.push(a);
        } else {
            let mut b = v.begin_array();
            for x in a {
                b.push_single(*x);
            }
        }
    }
    c.holds("number of arrays", v.len() == n && v.iter().count() == n);
    c.holds("number of elements", v.total_num_elements() == m.iter().map(|a| a.len()).sum::<usize>());
    for (k, a) in m.iter().enumerate() {
        same_slice(c, "array", v.get(k).unwrap(), a);
    }
    let flat: Vec<T> = v.iter_array_elements().copied().collect();
    same_slice(c, "elements in order", &flat, &m.concat());
    c.holds("equality", v == NestedVec::from(&m));
    for a in [Vec::<Vec<T>>::from(&v), Vec::from(&NestedVec::from(&m))] {
        c.holds("converted", a.len() == n);
        for (a, b) in a.iter().zip(&m) {
            same_slice(c, "converted array", a, b);
        }
    }
}
/// Slices: sub-ranges.
fn ranges<T: Real, C: Cx<T>>(c: &mut C) {
    let mut d: Vec<T> = (0..5).map(|i| c.var(&format!("x{i}"), -8.0, 8.0)).collect();
    let old = d.clone();
    let i = c.choose("start", 6);
    let j = i + c.choose("length", 6 - i);
    let a = unsafe { d.as_mut_slice().create_access() };
    let s = unsafe { a.subslice_mut(i..j) };
    same_slice(c, "sub-range", s, &old[i..j]);
    s.iter_mut().for_each(|x| *x = -*x);
    for k in 0..5 {
        let w = if (i..j).contains(&k) { -old[k] } else { old[k] };
        c.eq("negated sub-range", d[k], w);
    }
}

pub fn list() -> Vec<Harness> {
    let mut v = vec![];
    h!(v, "P18", "construction", Quick, "which lists form disjoint subsets", |c| construction(c));
    h!(v, "P18", "coloring_3", Quick, "greedy coloring of 3 lists", |c| coloring(c, 3, &POOL));
    h!(v, "P18", "coloring_4", Quick, "greedy coloring of 4 lists", |c| coloring(c, 4, &SMALL));
    h!(v, "P18", "coloring_4_wide", Thorough, "greedy coloring of 4 lists", |c| coloring(c, 4, &POOL));
    h!(v, "P18", "colored_scatter", Quick, "scatter by color", |c| colored_scatter(c));
    h!(v, "P18", "schedules", Quick, "every split, parts in order", |c| schedules(c, false));
    h!(v, "P18", "schedules_interleaved", Quick, "every split, every interleaving", |c| schedules(c, true));
    h!(v, "P18", "adaptors", Quick, "rayon adaptors", |c| adaptors(c));
    h!(v, "P18", "large", Quick, "coloring of larger grids and scatter by color", |c| large(c));
    h!(v, "P18", "bounds", Quick, "out of bounds subsets are refused", |c| bounds(c));
    h!(v, "P18", "blocks", Quick, "blocked storage", |c| blocks(c));
    h!(v, "P18", "ranges", Quick, "sub-ranges of slices", |c| ranges(c));
    h!(v, "P18", "csr_rows", Quick, "rows of sparse matrices", |c| rows_access(c));
    h!(v, "P19", "long", Quick, "nested vectors of up to 100 arrays", |c| long(c));
    h!(v, "P19", "history_2", Quick, "histories of 2 operations", |c| history(c, 2));
    h!(v, "P19", "history_3", Quick, "histories of 3 operations", |c| history(c, 3));
    h!(v, "P19", "history_4", Quick, "histories of 4 operations", |c| history(c, 4));
    h!(v, "P19", "history_5", Quick, "histories of 5 operations", |c| history(c, 5));
    h!(v, "P19", "history_6", Thorough, "histories of 6 operations", |c| history(c, 6));
    v
}
