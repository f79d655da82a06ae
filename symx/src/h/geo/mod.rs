pub mod aabb;
pub mod clip;
pub mod dist;
pub mod polymesh;
pub mod lines;
pub mod shapes;
pub fn list() -> Vec<super::util::Harness> {
    let mut v = vec![];
    aabb::list(&mut v);
    lines::list(&mut v);
    clip::list(&mut v);
    dist::list(&mut v);
    polymesh::list(&mut v);
    shapes::list(&mut v);
    v
}
