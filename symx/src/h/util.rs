pub use crate::engine::cx::Cx;
pub use crate::engine::driver::{Harness, Tier};
pub use fenris_traits::Real;
pub use nalgebra::*;

pub fn pt2<T: Real, C: Cx<T>>(c: &mut C, n: &str, b: f64) -> Point2<T> {
    Point2::new(c.var(&format!("{n}.x"), -b, b), c.var(&format!("{n}.y"), -b, b))
}
pub fn pt3<T: Real, C: Cx<T>>(c: &mut C, n: &str, b: f64) -> Point3<T> {
    Point3::new(
        c.var(&format!("{n}.x"), -b, b),
        c.var(&format!("{n}.y"), -b, b),
        c.var(&format!("{n}.z"), -b, b),
    )
}
pub fn vec2<T: Real, C: Cx<T>>(c: &mut C, n: &str, b: f64) -> Vector2<T> {
    pt2(c, n, b).coords
}
pub fn vec3<T: Real, C: Cx<T>>(c: &mut C, n: &str, b: f64) -> Vector3<T> {
    pt3(c, n, b).coords
}
pub fn ptn<T: Real, D: DimName, C: Cx<T>>(c: &mut C, n: &str, b: f64) -> OPoint<T, D>
where
    DefaultAllocator: nalgebra::allocator::Allocator<T, D>,
{
    let names = ["x", "y", "z"];
    let mut p = OPoint::<T, D>::origin();
    for i in 0..D::dim() {
        p[i] = c.var(&format!("{n}.{}", names[i]), -b, b);
    }
    p
}
pub fn same<T: Real, D: DimName, C: Cx<T>>(c: &mut C, what: &str, a: &OVector<T, D>, b: &OVector<T, D>)
where
    DefaultAllocator: nalgebra::allocator::Allocator<T, D>,
{
    for i in 0..D::dim() {
        c.eq(what, a[i], b[i]);
    }
}
pub fn same_slice<T: Real, C: Cx<T>>(c: &mut C, what: &str, a: &[T], b: &[T]) {
    c.holds(&format!("{what} (length)"), a.len() == b.len());
    for (x, y) in a.iter().zip(b) {
        c.eq(what, *x, *y);
    }
}
/// Does the code panic? Only for code which does not branch on symbolic values.
pub fn panics(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}
