//! Helpers shared by the finite element harness groups.
use super::util::*;
use fenris::allocators::{BiDimAllocator, DimAllocator};
use fenris::element::*;
use nalgebra::allocator::Allocator;

pub fn basis_of<T: Real, E: ReferenceFiniteElement<T>>(e: &E, xi: &OPoint<T, E::ReferenceDim>) -> Vec<T>
where
    DefaultAllocator: DimAllocator<T, E::ReferenceDim>,
{
    let mut v = vec![T::zero(); e.num_nodes()];
    e.populate_basis(&mut v, xi);
    v
}
pub fn grads_of<T: Real, E: ReferenceFiniteElement<T>>(e: &E, xi: &OPoint<T, E::ReferenceDim>) -> OMatrix<T, E::ReferenceDim, Dyn>
where
    DefaultAllocator: DimAllocator<T, E::ReferenceDim>,
{
    let mut g = OMatrix::<T, E::ReferenceDim, Dyn>::zeros(e.num_nodes());
    e.populate_basis_gradients(MatrixViewMut::from(&mut g), xi);
    g
}
pub fn verts_of<T: Real, C: Cx<T>, D: DimName, const N: usize>(c: &mut C, names: &str, b: f64) -> [OPoint<T, D>; N]
where
    DefaultAllocator: Allocator<T, D>,
{
    let mut i = 0;
    [(); N].map(|_| {
        i += 1;
        ptn::<T, D, C>(c, &format!("{names}{}", i - 1), b)
    })
}
/// Elements with arbitrary vertices.
pub trait Mk<T: Real>: FiniteElement<T> + Sized
where
    DefaultAllocator: BiDimAllocator<T, Self::GeometryDim, Self::ReferenceDim>,
{
    fn mk<C: Cx<T>>(c: &mut C, names: &str, b: f64) -> Self;
}
macro_rules! mk {
    ($($e:ident $n:expr;)*) => {$(
        impl<T: Real> Mk<T> for $e<T> {
            fn mk<C: Cx<T>>(c: &mut C, names: &str, b: f64) -> Self {
                $e::from_vertices(verts_of::<T, C, <Self as FiniteElement<T>>::GeometryDim, $n>(c, names, b))
            }
        }
    )*};
}
mk! {
    Segment2d1Element 2; Segment2d2Element 2; Tri3d2Element 3; Tri6d2Element 6; Tri3d3Element 3; Quad4d2Element 4;
    Quad9d2Element 9; Tet4Element 4; Tet10Element 10; Tet20Element 20; Hex8Element 8; Hex20Element 20; Hex27Element 27;
}

/// Determinant by cofactors.
pub fn det<T: Real>(m: &DMatrix<T>) -> T {
    match m.nrows() {
        1 => m[(0, 0)],
        2 => m[(0, 0)] * m[(1, 1)] - m[(0, 1)] * m[(1, 0)],
        _ => {
            let c = |a: usize, b: usize| m[(1, a)] * m[(2, b)] - m[(1, b)] * m[(2, a)];
            m[(0, 0)] * c(1, 2) - m[(0, 1)] * c(0, 2) + m[(0, 2)] * c(0, 1)
        }
    }
}
pub fn dmat<T: Real, R: DimName, K: DimName>(m: &OMatrix<T, R, K>) -> DMatrix<T>
where
    DefaultAllocator: Allocator<T, R, K>,
{
    DMatrix::from_iterator(R::dim(), K::dim(), m.iter().copied())
}
/// Square of the volume factor of a Jacobian: the sum of the squared maximal minors.
pub fn vol2<T: Real>(j: &DMatrix<T>) -> T {
    match (j.nrows(), j.ncols()) {
        (r, k) if r == k => det(j) * det(j),
        (_, 1) => j.iter().fold(T::zero(), |s, x| s + *x * *x),
        _ => {
            let c = |a: usize, b: usize| j[(a, 0)] * j[(b, 1)] - j[(b, 0)] * j[(a, 1)];
            let (x, y, z) = (c(1, 2), c(2, 0), c(0, 1));
            x * x + y * y + z * z
        }
    }
}

/// Fixed, pairwise different, interior points of the reference element.
pub fn fixed_points<T: Real, D: DimName, C: Cx<T>>(c: &mut C, n: usize) -> Vec<OPoint<T, D>>
where
    DefaultAllocator: Allocator<T, D>,
{
    (0..n)
        .map(|k| {
            let mut p = OPoint::<T, D>::origin();
            for i in 0..D::dim() {
                p[i] = c.frac([-3, -1, -5][(i + 2 * k) % 3], 8 + k as i64);
            }
            p
        })
        .collect()
}
/// A node of a distorted element: the reference node moved by a fixed, irregular small amount.
pub fn wiggle<T: Real, D: DimName, C: Cx<T>>(c: &C, k: usize, p: &OPoint<T, D>) -> OPoint<T, D>
where
    DefaultAllocator: Allocator<T, D>,
{
    let mut q = p.clone();
    for i in 0..D::dim() {
        q[i] = p[i] * c.frac(3 + i as i64, 2) + p[(i + 1) % D::dim()] * c.frac(1, 4) + c.frac(((5 * k + 3 * i + k * k) % 7) as i64 - 3, 64);
    }
    q
}
/// Physical gradients of the basis by cofactors of the Jacobian: columns.
pub fn phys_grads<T: Real>(j: &DMatrix<T>, g: &DMatrix<T>) -> DMatrix<T> {
    let d = j.nrows();
    let dj = det(j);
    let minor = |a: usize, b: usize| {
        let r: Vec<usize> = (0..d).filter(|x| *x != a).collect();
        let s: Vec<usize> = (0..d).filter(|x| *x != b).collect();
        match d {
            1 => T::one(),
            2 => j[(r[0], s[0])],
            _ => j[(r[0], s[0])] * j[(r[1], s[1])] - j[(r[0], s[1])] * j[(r[1], s[0])],
        }
    };
    // inverse transpose of J is the cofactor matrix over the determinant
    let cof = DMatrix::from_fn(d, d, |a, b| if (a + b) % 2 == 0 { minor(a, b) } else { -minor(a, b) });
    let m = cof * g;
    m.map(|x| x / dj)
}
pub fn dyn_grads<T: Real, D: DimName>(g: &OMatrix<T, D, Dyn>) -> DMatrix<T>
where
    DefaultAllocator: Allocator<T, D, Dyn>,
{
    DMatrix::from_fn(g.nrows(), g.ncols(), |a, b| g[(a, b)])
}
