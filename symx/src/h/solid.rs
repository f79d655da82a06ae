//! P31: hyperelastic materials, deformation measures, gravity.
use super::util::*;
use crate::h;
use fenris::allocators::DimAllocator;
use fenris::assembly::local::{Density, SourceFunction};
use fenris::assembly::operators::*;
use fenris::{SmallDim, Symmetry};
use fenris_solid::materials::*;
use fenris_solid::*;

fn lame<T: Real, C: Cx<T>>(c: &mut C) -> LameParameters<T> {
    LameParameters { mu: c.var("mu", -10.0, 10.0), lambda: c.var("lambda", -10.0, 10.0) }
}
fn mat<T: Real, D: SmallDim, C: Cx<T>>(c: &mut C, n: &str, b: f64) -> OMatrix<T, D, D>
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let mut m = OMatrix::<T, D, D>::zeros();
    for i in 0..D::USIZE {
        for j in 0..D::USIZE {
            m[(i, j)] = c.var(&format!("{n}{i}{j}"), -b, b);
        }
    }
    m
}
fn same_mat<T: Real, D: SmallDim, C: Cx<T>>(c: &mut C, what: &str, a: &OMatrix<T, D, D>, b: &OMatrix<T, D, D>)
where
    DefaultAllocator: DimAllocator<T, D>,
{
    for i in 0..D::USIZE {
        for j in 0..D::USIZE {
            c.eq(what, a[(i, j)], b[(i, j)]);
        }
    }
}
/// Determinant written out (oracle).
fn det<T: Real, D: SmallDim>(m: &OMatrix<T, D, D>) -> T
where
    DefaultAllocator: DimAllocator<T, D>,
{
    match D::USIZE {
        1 => m[(0, 0)],
        2 => m[(0, 0)] * m[(1, 1)] - m[(0, 1)] * m[(1, 0)],
        _ => {
            m[(0, 0)] * (m[(1, 1)] * m[(2, 2)] - m[(1, 2)] * m[(2, 1)])
                - m[(0, 1)] * (m[(1, 0)] * m[(2, 2)] - m[(1, 2)] * m[(2, 0)])
                + m[(0, 2)] * (m[(1, 0)] * m[(2, 1)] - m[(1, 1)] * m[(2, 0)])
        }
    }
}
fn unflat<T: Real, D: SmallDim>(x: &[T]) -> OMatrix<T, D, D>
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let mut m = OMatrix::<T, D, D>::zeros();
    for i in 0..D::USIZE {
        for j in 0..D::USIZE {
            m[(i, j)] = x[i * D::USIZE + j];
        }
    }
    m
}
fn flat<T: Real, D: SmallDim>(m: &OMatrix<T, D, D>) -> Vec<T>
where
    DefaultAllocator: DimAllocator<T, D>,
{
    (0..D::USIZE * D::USIZE).map(|k| m[(k / D::USIZE, k % D::USIZE)]).collect()
}
/// A deformation gradient; with positive determinant where the material needs it.
fn def<T: Real, D: SmallDim, C: Cx<T>>(c: &mut C, positive: bool) -> OMatrix<T, D, D>
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let f = mat::<T, D, C>(c, "F", 3.0);
    if positive {
        let d = det(&f);
        let tiny = c.frac(1, 64);
        c.assume_lt(tiny, d);
    }
    f
}
type Law<T> = LameParameters<T>;

/// P is the derivative of psi.
fn stress<T: Real, D: SmallDim, M: HyperelasticMaterial<T, D, Parameters = Law<T>>, C: Cx<T>>(c: &mut C, m: M, pos: bool)
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let p = lame(c);
    let f = def::<T, D, C>(c, pos);
    let s = m.compute_stress_tensor(&f, &p);
    let j = c.jacobian(&flat(&f), &|x| vec![m.compute_energy_density(&unflat::<T, D>(x), &p)]);
    for i in 0..D::USIZE {
        for k in 0..D::USIZE {
            c.eq_diff("P = dpsi/dF", s[(i, k)], j[0][i * D::USIZE + k]);
        }
    }
}
/// C(F, a, b)_ij = a_k dP_ik/dF_jm b_m, and the contraction is symmetric.
fn contraction<T: Real, D: SmallDim, M: HyperelasticMaterial<T, D, Parameters = Law<T>>, C: Cx<T>>(c: &mut C, m: M, pos: bool)
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let d = D::USIZE;
    let p = lame(c);
    let f = def::<T, D, C>(c, pos);
    let a = ptn::<T, D, C>(c, "a", 2.0).coords;
    let b = ptn::<T, D, C>(c, "b", 2.0).coords;
    let k = m.compute_stress_contraction(&f, &a, &b, &p);
    let jac = c.jacobian(&flat(&f), &|x| flat(&m.compute_stress_tensor(&unflat::<T, D>(x), &p)));
    for i in 0..d {
        for j in 0..d {
            let mut t = T::zero();
            for q in 0..d {
                for r in 0..d {
                    t += a[q] * jac[i * d + q][j * d + r] * b[r];
                }
            }
            c.eq_diff("contraction = a dP/dF b", k[(i, j)], t);
        }
    }
    let kt = m.compute_stress_contraction(&f, &b, &a, &p).transpose();
    same_mat(c, "contraction symmetric", &k, &kt);
}
/// The batch routines accumulate alpha * contraction in every block of the upper triangle and touch nothing else
/// (including vectors a, b of different lengths); the displacement-gradient variants agree with the others, and the
/// elliptic operator wrapper forwards to the material with g = P^T.
fn batch<T: Real, D: SmallDim, M: HyperelasticMaterial<T, D, Parameters = Law<T>>, C: Cx<T>>(c: &mut C, m: M, pos: bool)
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let d = D::USIZE;
    let p = lame(c);
    let f = def::<T, D, C>(c, pos);
    let (na, nb) = [(1, 1), (2, 2), (1, 2), (2, 1)][c.choose("vectors", 4)];
    let a = DVector::from_fn(na * d, |i, _| c.var(&format!("a{i}"), -2.0, 2.0));
    let b = DVector::from_fn(nb * d, |i, _| c.var(&format!("b{i}"), -2.0, 2.0));
    let alpha = c.var("alpha", -2.0, 2.0);
    let old = DMatrix::from_fn(na * d, nb * d, |i, j| c.var(&format!("o{i}.{j}"), -2.0, 2.0));
    let ug = u_grad_from_F(&f);
    let op = MaterialEllipticOperator::new(&m);
    let mut out = old.clone();
    match c.choose("routine", 3) {
        0 => m.accumulate_stress_contractions_into(
            DMatrixViewMut::from(&mut out), alpha, &f, DVectorView::from(&a), DVectorView::from(&b), &p),
        1 => m.accumulate_stress_contractions_du_into(
            DMatrixViewMut::from(&mut out), alpha, &ug, DVectorView::from(&a), DVectorView::from(&b), &p),
        _ => op.accumulate_contractions_into(
            DMatrixViewMut::from(&mut out), alpha, &ug, DVectorView::from(&a), DVectorView::from(&b), &p),
    }
    for j in 0..nb {
        for i in 0..na {
            let ai = a.rows_generic(d * i, D::name()).clone_owned();
            let bj = b.rows_generic(d * j, D::name()).clone_owned();
            let k = m.compute_stress_contraction(&f, &ai, &bj, &p);
            for r in 0..d {
                for s in 0..d {
                    let (r2, s2) = (d * i + r, d * j + s);
                    if i < j || (i == j && r <= s) {
                        c.eq("accumulated block", out[(r2, s2)], old[(r2, s2)] + alpha * k[(r, s)]);
                    } else if i > j {
                        let untouched = out[(r2, s2)];
                        let full = old[(r2, s2)] + alpha * k[(r, s)];
                        // documented: only the upper triangle has to be filled
                        let e = (untouched - old[(r2, s2)]) * (untouched - full);
                        c.eq("lower block untouched or complete", e, T::zero());
                    }
                }
            }
        }
    }
}
fn variants<T: Real, D: SmallDim, M: HyperelasticMaterial<T, D, Parameters = Law<T>>, C: Cx<T>>(c: &mut C, m: M, pos: bool)
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let p = lame(c);
    let f = def::<T, D, C>(c, pos);
    let a = ptn::<T, D, C>(c, "a", 2.0).coords;
    let b = ptn::<T, D, C>(c, "b", 2.0).coords;
    let op = MaterialEllipticOperator::new(&m);
    let ug = u_grad_from_F(&f);
    for i in 0..D::USIZE {
        for j in 0..D::USIZE {
            let id = if i == j { T::one() } else { T::zero() };
            c.eq("grad u = F^T - I", ug[(i, j)], f[(j, i)] - id);
        }
    }
    let back = deformation_gradient(&ug);
    same_mat(c, "F = I + grad u^T", &back, &f);
    let e = m.compute_energy_density(&f, &p);
    let edu = m.compute_energy_density_du(&ug, &p);
    c.eq("energy from grad u", e, edu);
    c.eq("operator energy", op.compute_energy(&ug, &p), e);
    let s = m.compute_stress_tensor(&f, &p);
    same_mat(c, "stress from grad u", &m.compute_stress_tensor_du(&ug, &p), &s);
    same_mat(c, "operator transpose = P", &op.compute_elliptic_operator_transpose(&ug, &p), &s);
    same_mat(c, "operator = P^T", &op.compute_elliptic_operator(&ug, &p), &s.transpose());
    let k = m.compute_stress_contraction(&f, &a, &b, &p);
    same_mat(c, "contraction from grad u", &m.compute_stress_contraction_du(&ug, &a, &b, &p), &k);
    same_mat(c, "operator contraction", &op.contract(&ug, &a, &b, &p), &k);
    c.holds("operator symmetric", op.symmetry() == Symmetry::Symmetric);
}
/// The documented energy densities.
fn energy<T: Real, D: SmallDim, C: Cx<T>>(c: &mut C)
where
    DefaultAllocator: DimAllocator<T, D>,
    LinearElasticMaterial: HyperelasticMaterial<T, D, Parameters = Law<T>>,
{
    let p = lame(c);
    let f = mat::<T, D, C>(c, "F", 3.0);
    let d = D::USIZE;
    let (mut ee, mut tr, mut gg, mut gtr) = (T::zero(), T::zero(), T::zero(), T::zero());
    let half = c.frac(1, 2);
    for i in 0..d {
        for j in 0..d {
            let id = if i == j { T::one() } else { T::zero() };
            let e = (f[(i, j)] + f[(j, i)]) * half - id;
            let mut g = -id;
            for k in 0..d {
                g += f[(k, i)] * f[(k, j)];
            }
            g *= half;
            ee += e * e;
            gg += g * g;
            if i == j {
                tr += e;
                gtr += g;
            }
        }
    }
    c.eq("linear elastic energy", LinearElasticMaterial.compute_energy_density(&f, &p), p.mu * ee + p.lambda * half * tr * tr);
    c.eq("StVK energy", StVKMaterial.compute_energy_density(&f, &p), p.mu * gg + p.lambda * half * gtr * gtr);
}
fn neo_energy<T: Real, D: SmallDim + PhysicalDim, C: Cx<T>>(c: &mut C)
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let p = lame(c);
    let f = def::<T, D, C>(c, true);
    let lj = log_det_F(&u_grad_from_F(&f).transpose());
    c.holds("log det F defined for positive determinants", lj.is_some());
    if let Some(lj) = lj {
        c.eq("log det F", lj, det(&f).ln());
        let half = c.frac(1, 2);
        let ic = f.iter().fold(T::zero(), |t, x| t + *x * *x);
        let d = c.int(D::USIZE as i64);
        c.eq("Neo-Hookean energy", NeoHookeanMaterial.compute_energy_density(&f, &p),
             p.mu * half * (ic - d) - p.mu * lj + p.lambda * half * lj * lj);
    }
}
/// Inverted or degenerate states: no logarithm, and the Neo-Hookean energy is +infinity.
fn neo_barrier<T: Real, D: SmallDim + PhysicalDim, C: Cx<T>>(c: &mut C)
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let p = lame(c);
    let f = mat::<T, D, C>(c, "F", 3.0);
    let d = det(&f);
    let tiny = c.frac(-1, 1024);
    c.assume_lt(d, tiny);
    let ug = u_grad_from_F(&f);
    c.holds("no logarithm for negative determinants", log_det_F(&ug.transpose()).is_none());
    c.infinite("energy is infinite for negative determinants", NeoHookeanMaterial.compute_energy_density(&f, &p));
    c.infinite("energy is infinite for negative determinants", NeoHookeanMaterial.compute_energy_density_du(&ug, &p));
    let a = OVector::<T, D>::from_fn(|i, _| c.int(1 + i as i64));
    let stress = NeoHookeanMaterial.compute_stress_tensor(&f, &p);
    let contraction = NeoHookeanMaterial.compute_stress_contraction(&f, &a, &a, &p);
    for x in stress.iter().chain(contraction.iter()) {
        c.undefined("no stress for negative determinants", *x);
    }
}
/// Rotation (2D, or about an axis in 3D) from the rational parametrisation of the circle.
fn rotation<T: Real, D: SmallDim, C: Cx<T>>(c: &mut C) -> OMatrix<T, D, D>
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let t = c.var("t", -4.0, 4.0);
    let n = T::one() + t * t;
    let (co, si) = ((T::one() - t * t) / n, (t + t) / n);
    let (i, j) = if D::USIZE == 2 { (0, 1) } else { [(0, 1), (0, 2), (1, 2)][c.choose("axis", 3)] };
    let mut r = OMatrix::<T, D, D>::identity();
    r[(i, i)] = co;
    r[(j, j)] = co;
    r[(i, j)] = -si;
    r[(j, i)] = si;
    r
}
/// Superposed rigid rotations: psi(RF) = psi(F), P(RF) = R P(F); isotropy psi(FR) = psi(F). Rest state is stress free.
fn objective<T: Real, D: SmallDim, M: HyperelasticMaterial<T, D, Parameters = Law<T>>, C: Cx<T>>(c: &mut C, m: M, pos: bool)
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let p = lame(c);
    let f = def::<T, D, C>(c, pos);
    let r = rotation::<T, D, C>(c);
    let rf = &r * &f;
    let e = m.compute_energy_density(&f, &p);
    c.eq("objectivity of the energy", m.compute_energy_density(&rf, &p), e);
    c.eq("isotropy of the energy", m.compute_energy_density(&(&f * &r), &p), e);
    let rp = &r * m.compute_stress_tensor(&f, &p);
    same_mat(c, "objectivity of the stress", &m.compute_stress_tensor(&rf, &p), &rp);
}
fn rest<T: Real, D: SmallDim, M: HyperelasticMaterial<T, D, Parameters = Law<T>>, C: Cx<T>>(c: &mut C, m: M)
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let p = lame(c);
    let id = OMatrix::<T, D, D>::identity();
    let z = OMatrix::<T, D, D>::zeros();
    c.eq("rest energy", m.compute_energy_density(&id, &p), T::zero());
    c.eq("rest energy (du)", m.compute_energy_density_du(&z, &p), T::zero());
    same_mat(c, "rest stress", &m.compute_stress_tensor(&id, &p), &z);
    same_mat(c, "rest stress (du)", &m.compute_stress_tensor_du(&z, &p), &z);
    // small strain limit: all models share the linear elastic tangent
    let a = ptn::<T, D, C>(c, "a", 2.0).coords;
    let b = ptn::<T, D, C>(c, "b", 2.0).coords;
    let k = m.compute_stress_contraction(&id, &a, &b, &p);
    let ab = (0..D::USIZE).fold(T::zero(), |t, i| t + a[i] * b[i]);
    for i in 0..D::USIZE {
        for j in 0..D::USIZE {
            let d = if i == j { ab } else { T::zero() };
            c.eq("rest tangent", k[(i, j)], p.mu * (d + b[i] * a[j]) + p.lambda * a[i] * b[j]);
        }
    }
}
fn lame_from_young<T: Real, C: Cx<T>>(c: &mut C) {
    let (e, nu) = (c.var("E", 0.0, 1e6), c.var("nu", -0.99, 0.49));
    let p = LameParameters::from(YoungPoisson { young: e, poisson: nu });
    let two = c.int(2);
    let three = c.int(3);
    c.eq("2 mu (1 + nu) = E", two * p.mu * (T::one() + nu), e);
    c.eq("lambda (1 + nu)(1 - 2 nu) = E nu", p.lambda * (T::one() + nu) * (T::one() - two * nu), e * nu);
    // uniaxial stress: sigma = E eps with transversal strain -nu eps
    let x = c.var("eps", -0.5, 0.5);
    let f = Matrix3::from_diagonal(&Vector3::new(T::one() + x, T::one() - nu * x, T::one() - nu * x));
    let s = LinearElasticMaterial.compute_stress_tensor(&f, &p);
    c.eq("axial stress", s[(0, 0)], e * x);
    c.eq("lateral stress", s[(1, 1)], T::zero());
    c.eq("lateral stress", s[(2, 2)], T::zero());
    let _ = three;
    let d = LameParameters::<T>::default();
    c.eq("default mu", d.mu, T::zero());
    c.eq("default lambda", d.lambda, T::zero());
}
fn gravity<T: Real, D: SmallDim, C: Cx<T>>(c: &mut C)
where
    DefaultAllocator: DimAllocator<T, D>,
{
    let g = ptn::<T, D, C>(c, "g", 20.0).coords;
    let x = ptn::<T, D, C>(c, "x", 20.0);
    let rho = c.var("rho", 0.0, 1e4);
    let v = GravitySource::from_acceleration(g.clone()).evaluate(&x, &Density(rho));
    for i in 0..D::USIZE {
        c.eq("rho g", v[i], g[i] * rho);
    }
}

macro_rules! per_material {
    ($v:ident, $f:ident, $name:expr, $about:expr, [$t1:ident, $t2:ident, $t3:ident]) => {
        per_material!(@ $v, $f, $name, $about, U1, "1d", $t1);
        per_material!(@ $v, $f, $name, $about, U2, "2d", $t2);
        per_material!(@ $v, $f, $name, $about, U3, "3d", $t3);
    };
    (@ $v:ident, $f:ident, $name:expr, $about:expr, $d:ident, $dn:expr, $t:ident) => {
        h!($v, "P31", concat!("linear_", $name, "_", $dn), $t, $about, |c| $f::<_, $d, _, _>(c, LinearElasticMaterial, false));
        h!($v, "P31", concat!("stvk_", $name, "_", $dn), $t, $about, |c| $f::<_, $d, _, _>(c, StVKMaterial, false));
        h!($v, "P31", concat!("neohookean_", $name, "_", $dn), $t, $about, |c| $f::<_, $d, _, _>(c, NeoHookeanMaterial, true));
    };
}

pub fn list() -> Vec<Harness> {
    let mut v = vec![];
    per_material!(v, stress, "stress", "P = dpsi/dF", [Quick, Quick, Quick]);
    per_material!(v, contraction, "contraction", "contraction is a dP/dF b and symmetric", [Quick, Quick, Quick]);
    per_material!(v, batch, "batch", "batched contractions accumulate the block-wise contractions", [Quick, Quick, Quick]);
    per_material!(v, variants, "variants", "displacement-gradient variants and the elliptic operator agree", [Quick, Quick, Quick]);
    h!(v, "P31", "energy_1d", Quick, "documented energy densities", |c| energy::<_, U1, _>(c));
    h!(v, "P31", "energy_2d", Quick, "documented energy densities", |c| energy::<_, U2, _>(c));
    h!(v, "P31", "energy_3d", Quick, "documented energy densities", |c| energy::<_, U3, _>(c));
    h!(v, "P31", "neo_energy_1d", Quick, "log det F and Neo-Hookean energy", |c| neo_energy::<_, U1, _>(c));
    h!(v, "P31", "neo_energy_2d", Quick, "log det F and Neo-Hookean energy", |c| neo_energy::<_, U2, _>(c));
    h!(v, "P31", "neo_energy_3d", Quick, "log det F and Neo-Hookean energy", |c| neo_energy::<_, U3, _>(c));
    h!(v, "P31", "neo_barrier_1d", Quick, "infinite energy of inverted states", |c| neo_barrier::<_, U1, _>(c));
    h!(v, "P31", "neo_barrier_2d", Quick, "infinite energy of inverted states", |c| neo_barrier::<_, U2, _>(c));
    h!(v, "P31", "neo_barrier_3d", Quick, "infinite energy of inverted states", |c| neo_barrier::<_, U3, _>(c));
    h!(v, "P31", "stvk_objective_2d", Quick, "rigid rotations", |c| objective::<_, U2, _, _>(c, StVKMaterial, false));
    h!(v, "P31", "stvk_objective_3d", Thorough, "rigid rotations", |c| objective::<_, U3, _, _>(c, StVKMaterial, false));
    h!(v, "P31", "neo_objective_2d", Quick, "rigid rotations", |c| objective::<_, U2, _, _>(c, NeoHookeanMaterial, true));
    h!(v, "P31", "neo_objective_3d", Thorough, "rigid rotations", |c| objective::<_, U3, _, _>(c, NeoHookeanMaterial, true));
    h!(v, "P31", "linear_rest_2d", Quick, "rest state", |c| rest::<_, U2, _, _>(c, LinearElasticMaterial));
    h!(v, "P31", "stvk_rest_2d", Quick, "rest state", |c| rest::<_, U2, _, _>(c, StVKMaterial));
    h!(v, "P31", "neo_rest_1d", Quick, "rest state", |c| rest::<_, U1, _, _>(c, NeoHookeanMaterial));
    h!(v, "P31", "neo_rest_2d", Quick, "rest state", |c| rest::<_, U2, _, _>(c, NeoHookeanMaterial));
    h!(v, "P31", "linear_rest_3d", Quick, "rest state", |c| rest::<_, U3, _, _>(c, LinearElasticMaterial));
    h!(v, "P31", "stvk_rest_3d", Quick, "rest state", |c| rest::<_, U3, _, _>(c, StVKMaterial));
    h!(v, "P31", "neo_rest_3d", Quick, "rest state", |c| rest::<_, U3, _, _>(c, NeoHookeanMaterial));
    h!(v, "P31", "lame_from_young", Quick, "Lame parameters", |c| lame_from_young(c));
    h!(v, "P31", "gravity_2d", Quick, "gravity source", |c| gravity::<_, U2, _>(c));
    h!(v, "P31", "gravity_3d", Quick, "gravity source", |c| gravity::<_, U3, _>(c));
    v
}
