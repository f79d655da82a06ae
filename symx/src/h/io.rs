//! P30: meshes and data written to VTK data sets and files, and read from Gmsh files.
//! Stored numbers are f64 in both formats; symbolic values pass through them as recognisable numbers (see engine/sym.rs).
use super::fe::*;
use super::util::*;
use crate::h;
use fenris::connectivity::*;
use fenris::element::*;
use fenris::io::msh::*;
use fenris::io::vtk::*;
use fenris::mesh::Mesh;
use fenris::vtkio::model::*;
use num_traits::ToPrimitive;

const B: f64 = 4.0;

/// Corners of the reference elements, and the corners whose centre is node i in the numbering of a file format.
const TRI: [[i64; 3]; 3] = [[-1, -1, 0], [1, -1, 0], [-1, 1, 0]];
const QUAD: [[i64; 3]; 4] = [[-1, -1, 0], [1, -1, 0], [1, 1, 0], [-1, 1, 0]];
const TET: [[i64; 3]; 4] = [[-1, -1, -1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]];
const HEX: [[i64; 3]; 8] = [[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1], [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]];
type Nodes = &'static [&'static [usize]];
const SEG2: Nodes = &[&[0], &[1]];
const SEG: [[i64; 3]; 2] = [[-1, 0, 0], [1, 0, 0]];
const TRI3: Nodes = &[&[0], &[1], &[2]];
const TRI6: Nodes = &[&[0], &[1], &[2], &[0, 1], &[1, 2], &[2, 0]];
const QUAD4: Nodes = &[&[0], &[1], &[2], &[3]];
const QUAD9: Nodes = &[&[0], &[1], &[2], &[3], &[0, 1], &[1, 2], &[2, 3], &[3, 0], &[0, 1, 2, 3]];
const TET4: Nodes = &[&[0], &[1], &[2], &[3]];
const HEX8: Nodes = &[&[0], &[1], &[2], &[3], &[4], &[5], &[6], &[7]];
const VTK_TET10: Nodes = &[&[0], &[1], &[2], &[3], &[0, 1], &[1, 2], &[2, 0], &[0, 3], &[1, 3], &[2, 3]];
const MSH_TET10: Nodes = &[&[0], &[1], &[2], &[3], &[0, 1], &[1, 2], &[2, 0], &[3, 0], &[2, 3], &[1, 3]];
const VTK_HEX20: Nodes = &[
    &[0], &[1], &[2], &[3], &[4], &[5], &[6], &[7], &[0, 1], &[1, 2], &[2, 3], &[3, 0], &[4, 5], &[5, 6], &[6, 7], &[7, 4], &[0, 4], &[1, 5], &[2, 6], &[3, 7],
];
const MSH_HEX27: Nodes = &[
    &[0], &[1], &[2], &[3], &[4], &[5], &[6], &[7], &[0, 1], &[0, 3], &[0, 4], &[1, 2], &[1, 5], &[2, 3], &[2, 6], &[3, 7], &[4, 5], &[4, 7], &[5, 6], &[6, 7],
    &[0, 1, 2, 3], &[0, 1, 5, 4], &[0, 3, 7, 4], &[1, 2, 6, 5], &[2, 3, 7, 6], &[4, 5, 6, 7], &[0, 1, 2, 3, 4, 5, 6, 7],
];
fn reference_node<T: Real, R: DimName, C: Cx<T>>(c: &C, corners: &[[i64; 3]], of: &[usize]) -> OPoint<T, R>
where
    DefaultAllocator: nalgebra::allocator::Allocator<T, R>,
{
    OPoint::from(OVector::<T, R>::from_fn(|a, _| c.frac(of.iter().map(|k| corners[*k][a]).sum(), of.len() as i64)))
}
fn numbers(b: &IOBuffer) -> Vec<f64> {
    match b {
        IOBuffer::F64(v) => v.clone(),
        b => b.clone().cast_into::<f64>().expect("numbers"),
    }
}
/// The stored numbers are the given values.
fn stored<T: Real, C: Cx<T>>(c: &mut C, what: &str, b: &IOBuffer, want: &[T]) {
    let b: Vec<T> = numbers(b).into_iter().map(|x| T::from_f64(x).unwrap()).collect();
    same_slice(c, what, &b, want);
}

// ---------------------------------------------------------------- VTK

fn cell_nodes(t: CellType) -> Option<(&'static [[i64; 3]], Nodes)> {
    Some(match t {
        CellType::Line => (&SEG, SEG2),
        CellType::Triangle => (&TRI, TRI3),
        CellType::QuadraticTriangle => (&TRI, TRI6),
        CellType::Quad => (&QUAD, QUAD4),
        CellType::QuadraticQuad => (&QUAD, &QUAD9[..8]),
        CellType::BiquadraticQuad => (&QUAD, QUAD9),
        CellType::Tetra => (&TET, TET4),
        CellType::QuadraticTetra => (&TET, VTK_TET10),
        CellType::Hexahedron => (&HEX, HEX8),
        CellType::QuadraticHexahedron => (&HEX, VTK_HEX20),
        _ => return None,
    })
}
/// Node i of the written cell lies where VTK places node i of a cell of that type.
macro_rules! vtk_cells {
    ($($n:ident $conn:ident $k:literal $d:ident $r:ident;)*) => {$(
fn $n<T: Real, C: Cx<T>>(c: &mut C) {
    let u = c_vars::<T, C>(c, "u", $k + 1);
    let v: Vec<OPoint<T, $d>> = (0..$k + 1).map(|i| ptn::<T, $d, C>(c, &format!("v{i}"), B)).collect();
    let shift = c.choose("first", $k);
    let conn = $conn(std::array::from_fn(|i| (i * $k + shift) % ($k + 1)));
    let e = ElementConnectivity::<T>::element(&conn, &v).unwrap();
    let mut out = vec![usize::MAX; VtkCellConnectivity::num_nodes(&conn)];
    conn.write_vtk_connectivity(&mut out);
    let Some((corners, nodes)) = cell_nodes(conn.cell_type()) else {
        c.holds("the cell type is known", false);
        return;
    };
    c.holds("as many nodes as a cell of this type has", out.len() == nodes.len());
    for (i, of) in nodes.iter().enumerate().take(out.len()) {
        let phi = basis_of(&e, &reference_node::<T, $r, C>(c, corners, of));
        let x = conn.vertex_indices().iter().zip(&phi).fold(T::zero(), |s, (j, p)| s + *p * u[*j]);
        c.holds("a vertex of the cell", out[i] <= $k);
        if out[i] <= $k {
            c.eq("the value at a written node is the value of the finite element function there", x, u[out[i]]);
        }
    }
}
    )*};
}
vtk_cells! {
    vtk_seg2 Segment2d2Connectivity 2 U2 U1;
    vtk_tri3 Tri3d2Connectivity 3 U2 U2;
    vtk_tri3d3 Tri3d3Connectivity 3 U3 U2;
    vtk_tri6 Tri6d2Connectivity 6 U2 U2;
    vtk_quad4 Quad4d2Connectivity 4 U2 U2;
    vtk_quad9 Quad9d2Connectivity 9 U2 U2;
    vtk_tet4 Tet4Connectivity 4 U3 U3;
    vtk_tet10 Tet10Connectivity 10 U3 U3;
    vtk_tet20 Tet20Connectivity 20 U3 U3;
    vtk_hex8 Hex8Connectivity 8 U3 U3;
    vtk_hex20 Hex20Connectivity 20 U3 U3;
    vtk_hex27 Hex27Connectivity 27 U3 U3;
}
fn c_vars<T: Real, C: Cx<T>>(c: &mut C, s: &str, n: usize) -> Vec<T> {
    (0..n).map(|i| c.var(&format!("{s}{i}"), -B, B)).collect()
}

fn the_piece(d: &DataSet) -> Option<&UnstructuredGridPiece> {
    match d {
        DataSet::UnstructuredGrid { pieces, .. } => match &pieces[..] {
            [Piece::Inline(p)] => Some(p),
            _ => None,
        },
        _ => None,
    }
}
/// The vertices of every cell, from either way of storing them.
fn cells_of(n: &VertexNumbers) -> Vec<Vec<u64>> {
    let mut out = vec![];
    match n {
        VertexNumbers::Legacy { num_cells, vertices } => {
            let mut k = 0;
            while k < vertices.len() {
                let n = vertices[k] as usize;
                out.push(vertices[k + 1..k + 1 + n].iter().map(|i| *i as u64).collect());
                k += 1 + n;
            }
            assert_eq!(out.len(), *num_cells as usize);
        }
        VertexNumbers::XML { connectivity, offsets } => {
            let mut k = 0;
            for o in offsets {
                out.push(connectivity[k..*o as usize].to_vec());
                k = *o as usize;
            }
        }
    }
    out
}
fn check_attribute<T: Real, C: Cx<T>>(c: &mut C, what: &str, a: Option<&Attribute>, name: &str, vectors: bool, comps: u32, want: &[T]) {
    let Some(Attribute::DataArray(a)) = a else {
        c.holds(&format!("{what}: an array"), false);
        return;
    };
    c.holds(&format!("{what}: name"), a.name == name);
    let kind = match &a.elem {
        ElementType::Vectors => vectors,
        ElementType::Scalars { num_comp, .. } => !vectors && *num_comp == comps,
        _ => false,
    };
    c.holds(&format!("{what}: kind and number of components"), kind);
    stored(c, what, &a.data, want);
}
macro_rules! datasets {
    ($($n:ident $conn:ident $k:literal $d:ident;)*) => {$(
fn $n<T: Real + ToPrimitive, C: Cx<T>>(c: &mut C, export: Option<&str>) {
    let nv = c.choose("vertices", 2) * ($k + 1);
    let v: Vec<OPoint<T, $d>> = (0..nv).map(|i| ptn::<T, $d, C>(c, &format!("v{i}"), B)).collect();
    let nc = if nv == 0 { 0 } else { c.choose("cells", 3) };
    let conn: Vec<_> = (0..nc).map(|k| $conn(std::array::from_fn(|i| (i * $k + k) % ($k + 1)))).collect();
    let mesh = Mesh::<T, $d, $conn>::from_vertices_and_connectivity(v.clone(), conn.clone());
    let sc = 1 + c.choose("scalar components", 2);
    let vc = 1 + c.choose("vector components", 3);
    let (ps, pv, cs) = (c_vars::<T, C>(c, "ps", sc * nv), c_vars::<T, C>(c, "pv", vc * nv), c_vars::<T, C>(c, "cs", sc * nc));
    let b = FiniteElementMeshDataSetBuilder::from_mesh(&mesh).with_title("a title");
    // in both orders
    let vectors_first = c.choose("vectors first", 2) == 1;
    let b = if vectors_first {
        b.with_point_vector_attributes("v", vc, &pv).with_cell_scalar_attributes("c", sc, &cs).with_point_scalar_attributes("s", sc, &ps)
    } else {
        b.with_point_scalar_attributes("s", sc, &ps).with_cell_scalar_attributes("c", sc, &cs).with_point_vector_attributes("v", vc, &pv)
    };
    let set = match export {
        None => b.try_build().expect("a data set"),
        Some(ext) => {
            let dir = std::env::temp_dir().join(format!("symx-io-{}-{:?}", std::process::id(), std::thread::current().id()));
            let file = dir.join(format!("m.{ext}"));
            b.try_export(&file).expect("a file");
            let set = Vtk::import(&file);
            std::fs::remove_file(&file).unwrap();
            std::fs::remove_dir(&dir).unwrap();
            let set = set.expect("a readable file");
            c.holds("title", ext != "vtk" || set.title == "a title");
            set.data
        }
    };
    let Some(p) = the_piece(&set) else {
        c.holds("an unstructured grid of one piece", false);
        return;
    };
    let pad = |x: &[T], n: usize| -> Vec<T> { x.chunks(n).flat_map(|x| (0..3).map(|i| if i < n { x[i] } else { T::zero() })).collect() };
    let flat: Vec<T> = v.iter().flat_map(|v| v.coords.as_slice().to_vec()).collect();
    stored(c, "points", &p.points, &pad(&flat, $d::dim()));
    let mut want = vec![];
    for cell in &conn {
        let mut out = vec![0; VtkCellConnectivity::num_nodes(cell)];
        cell.write_vtk_connectivity(&mut out);
        want.push(out.into_iter().map(|i| i as u64).collect::<Vec<_>>());
    }
    c.holds("cells", cells_of(&p.cells.cell_verts) == want);
    c.holds("cell types", p.cells.types == vec![$conn([0; $k]).cell_type(); nc]);
    let (i, j) = if vectors_first { (1, 0) } else { (0, 1) };
    c.holds("number of attributes", p.data.point.len() == 2 && p.data.cell.len() == 1);
    check_attribute(c, "point scalars", p.data.point.get(i), "s", false, sc as u32, &ps);
    check_attribute(c, "point vectors", p.data.point.get(j), "v", true, 3, &pad(&pv, vc));
    check_attribute(c, "cell scalars", p.data.cell.first(), "c", false, sc as u32, &cs);
}
    )*};
}
datasets! {
    data_seg3 Segment2d3Connectivity 2 U3;
    data_tri3 Tri3d2Connectivity 3 U2;
    data_tet10 Tet10Connectivity 10 U3;
    data_hex27 Hex27Connectivity 27 U3;
}

// ---------------------------------------------------------------- MSH

enum Out {
    Text(String),
    Binary(Vec<u8>),
}
impl Out {
    fn new(binary: bool) -> Out {
        if binary {
            let mut b = b"$MeshFormat\n4.1 1 8\n".to_vec();
            b.extend(1i32.to_le_bytes());
            b.extend(b"\n$EndMeshFormat\n");
            Out::Binary(b)
        } else {
            Out::Text("$MeshFormat\n4.1 0 8\n$EndMeshFormat\n".into())
        }
    }
    fn line(&mut self, s: &str) {
        match self {
            Out::Text(t) => t.push_str(&format!("{s}\n")),
            Out::Binary(b) => {
                // a section ends on a line of its own
                if s.starts_with("$End") {
                    b.push(b'\n');
                }
                b.extend(s.as_bytes());
                b.push(b'\n');
            }
        }
    }
    fn row(&mut self, ints: &[i32], sizes: &[u64], reals: &[f64]) {
        match self {
            Out::Text(t) => {
                let mut w: Vec<String> = ints.iter().map(|x| x.to_string()).collect();
                w.extend(sizes.iter().map(|x| x.to_string()));
                w.extend(reals.iter().map(|x| format!("{x:e}")));
                t.push_str(&(w.join(" ") + "\n"));
            }
            Out::Binary(b) => {
                ints.iter().for_each(|x| b.extend(x.to_le_bytes()));
                sizes.iter().for_each(|x| b.extend(x.to_le_bytes()));
                reals.iter().for_each(|x| b.extend(x.to_le_bytes()));
            }
        }
    }
    fn bytes(self) -> Vec<u8> {
        match self {
            Out::Text(t) => t.into_bytes(),
            Out::Binary(b) => b,
        }
    }
}
/// The file's nodes, in blocks, and elements of several kinds, in blocks of (entity dimension, type, rows of node tags).
fn msh_file(binary: bool, first: u64, blocks: &[Vec<[f64; 3]>], elements: &[(i32, i32, Vec<Vec<u64>>)]) -> Vec<u8> {
    let mut o = Out::new(binary);
    let n: usize = blocks.iter().map(|b| b.len()).sum();
    o.line("$Nodes");
    o.row(&[], &[blocks.len() as u64, n as u64, first, first + n as u64 - 1], &[]);
    let mut tag = first;
    for (k, b) in blocks.iter().enumerate() {
        o.row(&[3 - k as i32 % 4, 1, 0], &[b.len() as u64], &[]);
        for _ in b {
            o.row(&[], &[tag], &[]);
            tag += 1;
        }
        for x in b {
            o.row(&[], &[], x);
        }
    }
    o.line("$EndNodes");
    o.line("$Elements");
    let n: usize = elements.iter().map(|b| b.2.len()).sum();
    o.row(&[], &[elements.len() as u64, n as u64, 1, n.max(1) as u64], &[]);
    let mut tag = 1;
    for (dim, ty, rows) in elements {
        o.row(&[*dim, 1, *ty], &[rows.len() as u64], &[]);
        for r in rows {
            o.row(&[], &[&[tag], &r[..]].concat(), &[]);
            tag += 1;
        }
    }
    o.line("$EndElements");
    o.bytes()
}
/// Coordinates, symbolic and as stored in a file, partitioned into blocks.
fn msh_nodes<T: Real + ToPrimitive, C: Cx<T>>(c: &mut C, n: usize) -> (Vec<[T; 3]>, Vec<Vec<[f64; 3]>>) {
    let x: Vec<[T; 3]> = (0..n).map(|i| std::array::from_fn(|a| c.var(&format!("x{i}_{a}"), -B, B))).collect();
    let f: Vec<[f64; 3]> = x.iter().map(|x| x.map(|x| x.to_f64().unwrap())).collect();
    let blocks = match c.choose("node blocks", 3) {
        0 => vec![f],
        1 => vec![f[..1].to_vec(), vec![], f[1..].to_vec()],
        _ => vec![f[..n - 2].to_vec(), f[n - 2..n - 1].to_vec(), f[n - 1..].to_vec()],
    };
    (x, blocks)
}
macro_rules! msh_meshes {
    ($($n:ident $conn:ident $k:literal $ty:literal $d:ident $r:ident $corners:ident $nodes:ident;)*) => {$(
fn $n<T: Real + ToPrimitive, C: Cx<T>>(c: &mut C, binary: bool) {
    let m = $k + 2;
    let (x, blocks) = msh_nodes::<T, C>(c, m);
    let first = [1, 4][c.choose("first tag", 2)];
    let row = |k: usize| -> Vec<u64> { (0..$k).map(|i| first + ((i * ($k + 1) + k) % m) as u64).collect() };
    let dim = $r::dim() as i32;
    // the other blocks are of another type, or belong to another dimension
    let other = (0, 15, vec![vec![first], vec![first + 1]]);
    let wrong = (dim - 1, $ty, vec![row(4)]);
    let e = match c.choose("element blocks", 4) {
        0 => vec![(dim, $ty, vec![row(0), row(1)])],
        1 => vec![other, (dim, $ty, vec![row(0)]), wrong, (dim, $ty, vec![]), (dim + 1, $ty, vec![row(5)]), (dim, $ty, vec![row(1), row(2)])],
        2 => vec![(dim, $ty, vec![]), other],
        _ => vec![other, wrong],
    };
    let r = load_msh_from_bytes::<T, $d, $conn>(&msh_file(binary, first, &blocks, &e));
    let want: Vec<&Vec<u64>> = e.iter().filter(|e| e.0 == dim && e.1 == $ty).flat_map(|e| &e.2).collect();
    if !e.iter().any(|e| e.0 == dim && e.1 == $ty) {
        c.holds("a file without such elements is refused", r.is_err());
        return;
    }
    let Ok(mesh) = r else {
        c.holds("the file is read", false);
        return;
    };
    c.holds("number of vertices", mesh.vertices().len() == m);
    for (v, x) in mesh.vertices().iter().zip(&x) {
        same_slice(c, "vertices", v.coords.as_slice(), &x[..$d::dim()]);
    }
    c.holds("number of elements", mesh.connectivity().len() == want.len());
    let u = c_vars::<T, C>(c, "u", m);
    for (conn, row) in mesh.connectivity().iter().zip(want) {
        c.holds("nodes exist", conn.vertex_indices().iter().all(|i| *i < m));
        let Some(e) = ElementConnectivity::<T>::element(conn, mesh.vertices()) else {
            c.holds("an element", false);
            return;
        };
        for (of, tag) in $nodes.iter().zip(row) {
            let phi = basis_of(&e, &reference_node::<T, $r, C>(c, &$corners, of));
            let y = conn.vertex_indices().iter().zip(&phi).fold(T::zero(), |s, (j, p)| s + *p * u[*j]);
            c.eq("the value at a node of the element is the value of the node in the file", y, u[(tag - first) as usize]);
        }
    }
}
    )*};
}
msh_meshes! {
    msh_tri3 Tri3d2Connectivity 3 2 U2 U2 TRI TRI3;
    msh_tri3d3 Tri3d3Connectivity 3 2 U3 U2 TRI TRI3;
    msh_tri6 Tri6d2Connectivity 6 9 U2 U2 TRI TRI6;
    msh_quad4 Quad4d2Connectivity 4 3 U2 U2 QUAD QUAD4;
    msh_quad9 Quad9d2Connectivity 9 10 U2 U2 QUAD QUAD9;
    msh_tet4 Tet4Connectivity 4 4 U3 U3 TET TET4;
    msh_tet10 Tet10Connectivity 10 11 U3 U3 TET MSH_TET10;
    msh_hex8 Hex8Connectivity 8 5 U3 U3 HEX HEX8;
    msh_hex27 Hex27Connectivity 27 12 U3 U3 HEX MSH_HEX27;
}
/// Larger files: hundreds of nodes and elements, in one block or in many.
fn msh_large<T: Real + ToPrimitive, C: Cx<T>>(c: &mut C, binary: bool) {
    let n = [130, 330][c.choose("nodes", 2)];
    let chunk = [n, 13][c.choose("blocks", 2)];
    let first = [1, 1000][c.choose("first tag", 2)];
    let t = c_vars::<T, C>(c, "t", 40);
    let x: Vec<[T; 3]> = (0..n).map(|i| [t[i % 40], c.int(i as i64), T::zero()]).collect();
    let f: Vec<[f64; 3]> = x.iter().map(|x| x.map(|x| x.to_f64().unwrap())).collect();
    let blocks: Vec<Vec<[f64; 3]>> = f.chunks(chunk).map(|b| b.to_vec()).collect();
    let rows: Vec<Vec<u64>> = (0..2 * n).map(|k| [7 * k, 7 * k + 1, 11 * k + 5].iter().map(|i| first + (i % n) as u64).collect()).collect();
    let e: Vec<_> = rows.chunks(chunk).map(|r| (2, 2, r.to_vec())).collect();
    let Ok(mesh) = load_msh_from_bytes::<T, U2, Tri3d2Connectivity>(&msh_file(binary, first, &blocks, &e)) else {
        c.holds("the file is read", false);
        return;
    };
    c.holds("numbers of vertices and elements", mesh.vertices().len() == n && mesh.connectivity().len() == 2 * n);
    for (v, x) in mesh.vertices().iter().zip(&x) {
        same_slice(c, "vertices", v.coords.as_slice(), &x[..2]);
    }
    for (k, r) in mesh.connectivity().iter().zip(&rows) {
        c.holds("elements", (0..3).all(|i| k.0[i] as u64 + first == r[i]));
    }
}
/// A larger mesh as a VTK data set.
fn vtk_large<T: Real + ToPrimitive, C: Cx<T>>(c: &mut C) {
    let n = [130, 330][c.choose("vertices", 2)];
    let t = c_vars::<T, C>(c, "t", 40);
    let v: Vec<Point2<T>> = (0..n).map(|i| Point2::new(t[i % 40], c.int(i as i64))).collect();
    let conn: Vec<_> = (0..2 * n).map(|k| Tri3d2Connectivity([7 * k % n, (7 * k + 1) % n, (11 * k + 5) % n])).collect();
    let mesh = Mesh::<T, U2, Tri3d2Connectivity>::from_vertices_and_connectivity(v.clone(), conn.clone());
    let ps: Vec<T> = (0..n).map(|i| t[(i + i / 40) % 40]).collect();
    let set = FiniteElementMeshDataSetBuilder::from_mesh(&mesh).with_point_scalar_attributes("s", 1, &ps).try_build().expect("a data set");
    let Some(p) = the_piece(&set) else {
        c.holds("an unstructured grid of one piece", false);
        return;
    };
    let flat: Vec<T> = v.iter().flat_map(|v| [v.x, v.y, T::zero()]).collect();
    stored(c, "points", &p.points, &flat);
    let want: Vec<Vec<u64>> = conn.iter().map(|k| k.0.iter().map(|i| *i as u64).collect()).collect();
    c.holds("cells", cells_of(&p.cells.cell_verts) == want && p.cells.types.len() == 2 * n);
    check_attribute(c, "point scalars", p.data.point.first(), "s", false, 1, &ps);
}
/// Elements whose node tags are not those of nodes in the file.
fn msh_bad_tags<T: Real + ToPrimitive, C: Cx<T>>(c: &mut C, binary: bool) {
    let (_, blocks) = msh_nodes::<T, C>(c, 4);
    let first = [1, 4][c.choose("first tag", 2)];
    let mut row: Vec<u64> = (0..3).map(|i| first + i).collect();
    let k = c.choose("position", 3);
    row[k] = [0, 1, 3, 4, 5, 7, 8, u64::MAX][c.choose("tag", 8)];
    let good = row[k] >= first && row[k] < first + 4;
    let r = load_msh_from_bytes::<T, U2, Tri3d2Connectivity>(&msh_file(binary, first, &blocks, &[(2, 2, vec![vec![first, first + 1, first + 3], row])]));
    c.holds("a mesh is made exactly of elements whose nodes exist", r.is_ok() == good);
}
/// Files which are not complete, or not in the supported form, are refused.
fn msh_refused<T: Real + ToPrimitive, C: Cx<T>>(c: &mut C, binary: bool) {
    let (_, blocks) = msh_nodes::<T, C>(c, 4);
    let e = [(2, 2, vec![vec![1, 2, 4], vec![2, 3, 4]])];
    let bytes = msh_file(binary, 1, &blocks, &e);
    let text = |s: &str| s.as_bytes().to_vec();
    let find = |t: &[u8]| bytes.windows(t.len()).position(|w| w == t).unwrap();
    let (n, el) = (find(b"$Nodes"), find(b"$Elements"));
    let b = match c.choose("defect", 6) {
        0 => vec![],
        1 => bytes[..n].to_vec(),
        2 => bytes[..el].to_vec(),
        3 => [&bytes[..n], &bytes[el..]].concat(),
        4 => bytes[..bytes.len() - 20].to_vec(),
        _ => [&bytes[..], &text("$Nodes\n$EndNodes\n")].concat(),
    };
    c.holds("the file is refused", load_msh_from_bytes::<T, U2, Tri3d2Connectivity>(&b).is_err());
    c.holds("a missing file is an error", load_msh_from_file::<T, U2, Tri3d2Connectivity, _>("/nonexistent/file.msh").is_err());
}
/// Node tags with gaps are refused.
fn msh_sparse<T: Real + ToPrimitive, C: Cx<T>>(c: &mut C) {
    let (_, blocks) = msh_nodes::<T, C>(c, 4);
    let s = String::from_utf8(msh_file(false, 1, &blocks, &[(2, 2, vec![vec![1, 2, 4]])])).unwrap();
    let t = s.replacen(&format!("{} 4 1 4\n", blocks.len()), &format!("{} 4 1 9\n", blocks.len()), 1);
    c.holds("changed", s != t);
    c.holds("sparse node tags are refused", load_msh_from_bytes::<T, U2, Tri3d2Connectivity>(t.as_bytes()).is_err());
    let t = s.replacen("$Elements\n1 1 1 1\n", "$Elements\n1 1 1 3\n", 1);
    c.holds("changed", s != t);
    c.holds("sparse element tags are refused", load_msh_from_bytes::<T, U2, Tri3d2Connectivity>(t.as_bytes()).is_err());
    for k in [3, 4, 5] {
        let t = s.replacen(&format!("{} 4 1 4\n", blocks.len()), &format!("{} {k} 1 {k}\n", blocks.len()), 1);
        let r = load_msh_from_bytes::<T, U2, Tri3d2Connectivity>(t.as_bytes());
        c.holds("the number of nodes is that of the file", r.is_ok() == (k == 4));
    }
}

pub fn list() -> Vec<Harness> {
    let mut v = vec![];
    macro_rules! vtk_list { ($($n:ident)*) => { $( h!(v, "P30", stringify!($n), Quick, "cells written to VTK", |c| $n(c)); )* } }
    vtk_list!(vtk_seg2 vtk_tri3 vtk_tri3d3 vtk_tri6 vtk_quad4 vtk_quad9 vtk_tet4 vtk_tet10 vtk_tet20 vtk_hex8 vtk_hex20 vtk_hex27);
    macro_rules! data_list { ($($n:ident)*) => { $( h!(v, "P30", stringify!($n), Quick, "VTK data sets", |c| $n(c, None)); )* } }
    data_list!(data_seg3 data_tri3 data_tet10 data_hex27);
    h!(v, "P30", "file_vtk", Quick, "legacy VTK files", |c| data_tri3(c, Some("vtk")));
    h!(v, "P30", "file_vtk_3d", Quick, "legacy VTK files", |c| data_tet10(c, Some("vtk")));
    h!(v, "P30", "file_vtu", Quick, "XML VTK files", |c| data_tri3(c, Some("vtu")));
    macro_rules! msh_list { ($($n:ident)*) => { $(
        h!(v, "P30", concat!(stringify!($n), "_text"), Quick, "meshes from Gmsh files", |c| $n(c, false));
        h!(v, "P30", concat!(stringify!($n), "_binary"), Quick, "meshes from Gmsh files", |c| $n(c, true));
    )* } }
    msh_list!(msh_tri3 msh_tri3d3 msh_tri6 msh_quad4 msh_quad9 msh_tet4 msh_tet10 msh_hex8 msh_hex27 msh_bad_tags msh_refused);
    h!(v, "P30", "msh_large_text", Quick, "larger Gmsh files", |c| msh_large(c, false));
    h!(v, "P30", "msh_large_binary", Quick, "larger Gmsh files", |c| msh_large(c, true));
    h!(v, "P30", "vtk_large", Quick, "larger VTK data sets", |c| vtk_large(c));
    h!(v, "P30", "msh_sparse", Quick, "sparse tags", |c| msh_sparse(c));
    v
}
