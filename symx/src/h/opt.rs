//! P20 (conjugate gradients), P21 (Newton's method and line search), P22 (finite differences).
use super::util::*;
use crate::h;
use fenris_optimize::calculus::*;
use fenris_optimize::newton::*;
use fenris_sparse::cg::*;
use nalgebra_sparse::{CooMatrix, CsrMatrix};
use std::cell::{Cell, RefCell};
use std::error::Error;
use std::rc::Rc;

fn vars<T: Real, C: Cx<T>>(c: &mut C, n: usize, s: &str, b: f64) -> DVector<T> {
    DVector::from_fn(n, |i, _| c.var(&format!("{s}{i}"), -b, b))
}
fn sym_matrix<T: Real, C: Cx<T>>(c: &mut C, n: usize, s: &str, b: f64) -> DMatrix<T> {
    let mut a = DMatrix::zeros(n, n);
    for i in 0..n {
        for j in 0..=i {
            a[(i, j)] = c.var(&format!("{s}{i}{j}"), -b, b);
            a[(j, i)] = a[(i, j)];
        }
    }
    a
}
/// Leading principal minors are positive.
fn assume_spd<T: Real, C: Cx<T>>(c: &mut C, a: &DMatrix<T>) {
    let tiny = c.frac(1, 64);
    c.assume_lt(tiny, a[(0, 0)]);
    if a.nrows() > 1 {
        let d = a[(0, 0)] * a[(1, 1)] - a[(0, 1)] * a[(1, 0)];
        c.assume_lt(tiny, d);
    }
}
fn mul<T: Real>(a: &DMatrix<T>, x: &DVector<T>) -> DVector<T> {
    DVector::from_fn(a.nrows(), |i, _| (0..a.ncols()).fold(T::zero(), |t, j| t + a[(i, j)] * x[j]))
}
fn residual<T: Real>(a: &DMatrix<T>, x: &DVector<T>, b: &DVector<T>) -> DVector<T> {
    let ax = mul(a, x);
    DVector::from_fn(b.len(), |i, _| b[i] - ax[i])
}
fn dot<T: Real>(a: &DVector<T>, b: &DVector<T>) -> T {
    (0..a.len()).fold(T::zero(), |t, i| t + a[i] * b[i])
}

/// An operator which records what it is applied to, and may fail.
struct Spy<T: Scalar> {
    a: DMatrix<T>,
    log: RefCell<Vec<DVector<T>>>,
    fail_at: usize,
}
impl<T: Real> Spy<T> {
    fn new(a: &DMatrix<T>) -> Self {
        Spy { a: a.clone(), log: RefCell::new(vec![]), fail_at: usize::MAX }
    }
    fn failing(a: &DMatrix<T>, fail_at: usize) -> Self {
        Spy { a: a.clone(), log: RefCell::new(vec![]), fail_at }
    }
}
impl<T: Real> LinearOperator<T> for Spy<T> {
    fn apply(&self, mut y: DVectorViewMut<T>, x: DVectorView<T>) -> Result<(), Box<dyn Error>> {
        let x = x.clone_owned();
        y.copy_from(&mul(&self.a, &x));
        self.log.borrow_mut().push(x);
        if self.log.borrow().len() > self.fail_at {
            return Err("operator failed".into());
        }
        Ok(())
    }
}
/// A criterion which records its calls and stops at a given one.
struct Probe<T: Scalar> {
    stop_at: usize,
    fail_at: usize,
    resets: Cell<usize>,
    early_resets: Cell<usize>,
    seen: RefCell<Vec<(usize, DVector<T>, DVector<T>, T)>>,
}
impl<T: Real> Probe<T> {
    fn new(stop_at: usize) -> Self {
        Probe { stop_at, fail_at: usize::MAX, resets: Cell::new(0), early_resets: Cell::new(0), seen: RefCell::new(vec![]) }
    }
}
impl<T: Real> CgStoppingCriterion<T> for &Probe<T> {
    fn reset(&self, _a: &dyn LinearOperator<T>, _x: DVectorView<T>, _b: DVectorView<T>) {
        self.resets.set(self.resets.get() + 1);
        if self.seen.borrow().is_empty() {
            self.early_resets.set(self.early_resets.get() + 1);
        }
    }
    fn has_converged(&self, _a: &dyn LinearOperator<T>, x: DVectorView<T>, _b: DVectorView<T>, b_norm: T, iteration: usize, r: DVectorView<T>) -> Result<bool, SolveErrorKind> {
        let k = self.seen.borrow().len();
        self.seen.borrow_mut().push((iteration, x.clone_owned(), r.clone_owned(), b_norm));
        if k >= self.fail_at {
            return Err(SolveErrorKind::StoppingCriterionError("criterion failed".into()));
        }
        Ok(k >= self.stop_at)
    }
}

/// One system: symmetric matrix, diagonal preconditioner, right-hand side, start vector.
fn system<T: Real, C: Cx<T>>(c: &mut C, n: usize, spd: bool, guess: bool) -> (DMatrix<T>, DMatrix<T>, DVector<T>, DVector<T>) {
    let a = sym_matrix(c, n, "a", 4.0);
    if spd {
        assume_spd(c, &a);
    }
    let mut p = DMatrix::identity(n, n);
    if c.choose("preconditioned", 2) == 1 {
        for i in 0..n {
            // with a definite matrix and no guess, keep the decisions within reach of the solver
            p[(i, i)] = if spd && !guess { c.frac(1 + 3 * i as i64, 2) } else { c.var(&format!("p{i}"), 0.125, 4.0) };
        }
    }
    let b = vars(c, n, "b", 4.0);
    let x = if guess { vars(c, n, "x", 4.0) } else { DVector::zeros(n) };
    (a, p, b, x)
}
/// Whatever the matrix: the criterion is reset once and asked once per iterate, with the iteration number, the norm of
/// the right-hand side, and the true residual of the current iterate; consecutive search directions are conjugate and
/// consecutive residuals orthogonal; failures name a witness.
fn cg_trace<T: Real, C: Cx<T>>(c: &mut C, n: usize, steps: usize, guess: bool) {
    let s = system(c, n, false, guess);
    cg_trace_of(c, n, steps, s)
}
/// The same with preconditioners which need not be definite.
fn cg_indefinite<T: Real, C: Cx<T>>(c: &mut C, n: usize, steps: usize) {
    let a = if c.choose("matrix", 2) == 0 { sym_matrix(c, n, "a", 4.0) } else { DMatrix::from_fn(n, n, |i, j| c.int(if i == j { 2 + i as i64 } else { 1 })) };
    let p = DMatrix::from_fn(n, n, |i, j| if i == j { c.var(&format!("p{i}"), -4.0, 4.0) } else { T::zero() });
    let b = vars(c, n, "b", 4.0);
    c.prove_defined();
    cg_trace_of(c, n, steps, (a, p, b, DVector::zeros(n)))
}
fn cg_trace_of<T: Real, C: Cx<T>>(c: &mut C, n: usize, steps: usize, (a, p, b, x0): (DMatrix<T>, DMatrix<T>, DVector<T>, DVector<T>)) {
    let _ = n;
    let b2 = dot(&b, &b);
    c.assume_lt(T::zero(), b2);
    let (op, pre, probe) = (Spy::new(&a), Spy::new(&p), Probe::new(steps));
    let mut x = x0.clone();
    let r = ConjugateGradient::new().with_operator(&op).with_preconditioner(&pre).with_stopping_criterion(&probe).solve_with_guess(&b, &mut x);
    let seen = probe.seen.borrow();
    c.holds("the criterion is reset once, before its first use", probe.resets.get() == 1 && probe.early_resets.get() == 1);
    for (k, (it, xk, rk, bn)) in seen.iter().enumerate() {
        c.holds("iteration number", *it == k);
        c.eq("norm of the right-hand side", *bn * *bn, b2);
        c.le("norm of the right-hand side is not negative", T::zero(), *bn);
        if k == 0 {
            same_slice(c, "the first iterate is the guess", xk.as_slice(), x0.as_slice());
        }
        let want = residual(&a, xk, &b);
        same_slice(c, "the residual is that of the iterate", rk.as_slice(), want.as_slice());
    }
    let dirs: Vec<_> = op.log.borrow()[1..].to_vec();
    for k in 1..dirs.len() {
        c.eq("search directions are conjugate", dot(&dirs[k], &mul(&a, &dirs[k - 1])), T::zero());
    }
    for k in 1..seen.len() {
        let d = &dirs[k - 1];
        c.lt("no step along a direction without positive curvature", T::zero(), dot(d, &mul(&a, d)));
        let r = &seen[k - 1].2;
        c.lt("no step with a preconditioner found not to be positive definite", T::zero(), dot(r, &mul(&p, r)));
        let z = mul(&p, &seen[k - 1].2);
        c.eq("residuals are orthogonal", dot(&seen[k].2, &z), T::zero());
    }
    let last = seen.last().map(|s| s.1.clone()).unwrap();
    same_slice(c, "the result is the last iterate", x.as_slice(), last.as_slice());
    match r {
        Ok(o) => c.holds("iterations are counted", o.num_iterations == steps && seen.len() == steps + 1),
        Err(e) => {
            c.holds("iterations are counted", e.output.num_iterations + 1 == seen.len());
            let r = seen.last().unwrap().2.clone();
            let d = dirs.last().unwrap().clone();
            match e.kind {
                SolveErrorKind::IndefiniteOperator => {
                    let q = dot(&d, &mul(&a, &d));
                    c.le("witness of an operator that is not positive definite", q, T::zero());
                }
                SolveErrorKind::IndefinitePreconditioner => {
                    let q = dot(&r, &mul(&p, &r));
                    c.le("witness of a preconditioner that is not positive definite", q, T::zero());
                }
                _ => c.holds("no other failure", false),
            }
        }
    }
}
/// Positive definite systems: exact after n steps, never reported indefinite before that.
fn cg_exact<T: Real, C: Cx<T>>(c: &mut C, n: usize, guess: bool) {
    let (a, p, b, mut x) = system(c, n, true, guess);
    let b2 = dot(&b, &b);
    c.assume_lt(T::zero(), b2);
    let probe = Probe::new(n);
    let r = ConjugateGradient::new().with_operator(&a).with_preconditioner(&p).with_stopping_criterion(&probe).solve_with_guess(&b, &mut x);
    let res = residual(&a, &x, &b);
    match r {
        Ok(_) => (),
        Err(e) => match e.kind {
            SolveErrorKind::IndefiniteOperator | SolveErrorKind::IndefinitePreconditioner => {
                // only possible because the iterate is already exact
                let _ = e.output.num_iterations;
            }
            _ => c.holds("no other failure", false),
        },
    }
    same_slice(c, "the system is solved after n steps", res.as_slice(), DVector::zeros(n).as_slice());
}
/// Larger systems: after every number of steps the residual is orthogonal to the Krylov space, and vanishes in the end.
fn cg_larger<T: Real, C: Cx<T>>(c: &mut C, n: usize) {
    let a = DMatrix::from_fn(n, n, |i, j| match i.abs_diff(j) {
        0 => c.int(4 + (i * i % 5) as i64),
        1 => c.int(-1 - (i.min(j) % 2) as i64 / 2),
        _ => T::zero(),
    });
    let pre = c.choose("preconditioner", 2) == 1;
    let p = DMatrix::from_fn(n, n, |i, j| if i != j { T::zero() } else if pre { c.frac(1, 1 + (i % 3) as i64) } else { T::one() });
    let t = c.var("scale", -2.0, 2.0);
    c.assume_ne(t, T::zero());
    let b = DVector::from_fn(n, |i, _| t * c.int((3 * i % 7) as i64 - 2));
    let mut x = if c.choose("guess", 2) == 1 { DVector::from_fn(n, |i, _| t * c.int(2 - (i % 4) as i64)) } else { DVector::zeros(n) };
    let r0 = residual(&a, &x, &b);
    let k = c.choose("steps", n + 1);
    let probe = Probe::new(k);
    let r = ConjugateGradient::new().with_operator(&a).with_preconditioner(&p).with_stopping_criterion(&probe).solve_with_guess(&b, &mut x);
    c.holds("no failure", r.is_ok());
    let Ok(r) = r else { return };
    c.holds("number of steps", r.num_iterations == k);
    let res = residual(&a, &x, &b);
    let mut v = mul(&p, &r0);
    for _ in 0..k {
        c.eq("the residual is orthogonal to the Krylov space", dot(&res, &v), T::zero());
        v = mul(&p, &mul(&a, &v));
    }
    if k == n {
        same_slice(c, "the system is solved after n steps", res.as_slice(), DVector::zeros(n).as_slice());
    }
}
/// The relative residual criterion is honoured; the number of iterations is bounded by the limit.
fn cg_relative<T: Real, C: Cx<T>>(c: &mut C, n: usize, max: usize, guess: bool) {
    let (a, p, b, mut x) = system(c, n, true, guess);
    let tol = c.var("tol", 0.0, 1.0);
    let sparse = c.choose("sparse", 2) == 1;
    let crit = RelativeResidualCriterion::new(tol);
    let mut coo = CooMatrix::new(n, n);
    for i in 0..n {
        for j in 0..n {
            coo.push(i, j, a[(i, j)]);
        }
    }
    let s = CsrMatrix::from(&coo);
    let r = if sparse {
        ConjugateGradient::new().with_operator(&s).with_preconditioner(&p).with_max_iter(max).with_stopping_criterion(crit).solve_with_guess(&b, &mut x)
    } else {
        ConjugateGradient::new().with_operator(&a).with_preconditioner(&p).with_max_iter(max).with_stopping_criterion(crit).solve_with_guess(&b, &mut x)
    };
    let res = residual(&a, &x, &b);
    let (r2, b2) = (dot(&res, &res), dot(&b, &b));
    match r {
        Ok(o) => {
            c.holds("iteration limit", o.num_iterations <= max);
            c.le("converged: |b - Ax| <= tol |b|", r2, tol * tol * b2);
        }
        Err(e) => match e.kind {
            SolveErrorKind::MaxIterationsReached { max_iter } => {
                c.holds("iteration limit", max_iter == max && e.output.num_iterations == max);
                c.lt("the limit is reported only without convergence", tol * tol * b2, r2);
            }
            _ => c.eq("other failures only at the exact solution", r2, T::zero()),
        },
    }
}
/// An iteration which never converges ends exactly at the limit, after that many updates.
fn cg_limit<T: Real, C: Cx<T>>(c: &mut C) {
    let n = 3;
    let scale = c.var("scale", 0.5, 2.0);
    let a = DMatrix::from_fn(n, n, |i, j| if i == j { T::from_usize(1 << i).unwrap() } else { T::zero() });
    let p = DMatrix::from_fn(n, n, |i, j| if i == j { T::one() } else { T::zero() });
    let b = DVector::from_element(n, scale);
    let max = c.choose("limit", 3);
    let limited = c.choose("guess", 2);
    let mut x = DVector::from_fn(n, |i, _| if limited == 1 && i == 0 { scale } else { T::zero() });
    let op = Spy::failing(&a, usize::MAX);
    let probe = Probe::new(usize::MAX);
    // (with the guess, two steps are exact)
    let max = if limited == 1 { max.min(1) } else { max };
    let r = ConjugateGradient::new().with_operator(&op).with_preconditioner(&p).with_stopping_criterion(&probe).with_max_iter(max).solve_with_guess(&b, &mut x);
    match r {
        Ok(_) => c.holds("the limit is reported", false),
        Err(e) => {
            c.holds("stops exactly at the limit", matches!(e.kind, SolveErrorKind::MaxIterationsReached { max_iter } if max_iter == max) && e.output.num_iterations == max);
            c.holds("as many updates as the limit", op.log.borrow().len() == max + 1 && probe.seen.borrow().len() == max + 1);
        }
    }
}
/// A vanishing right-hand side: the solution is zero, whatever the guess.
fn cg_zero<T: Real, C: Cx<T>>(c: &mut C, n: usize) {
    let (a, p, _, mut x) = system(c, n, false, true);
    let b = DVector::zeros(n);
    let probe = Probe::new(usize::MAX);
    let r = ConjugateGradient::new().with_operator(&a).with_preconditioner(&p).with_stopping_criterion(&probe).solve_with_guess(&b, &mut x);
    c.holds("solved without iterations", r.map_or(false, |o| o.num_iterations == 0));
    for v in x.iter() {
        c.eq("zero solution", *v, T::zero());
    }
}
/// Failures of the operator, the preconditioner and the criterion are passed on, with the number of completed
/// iterations; the iterate is the last one completed.
fn cg_failures<T: Real, C: Cx<T>>(c: &mut C) {
    let n = 2;
    let (a, p, b, x0) = system(c, n, true, true);
    let b2 = dot(&b, &b);
    c.assume_lt(T::zero(), b2);
    let who = c.choose("who fails", 3);
    let at = c.choose("call", 3);
    let op = Spy::failing(&a, if who == 0 { at } else { usize::MAX });
    let pre = Spy::failing(&p, if who == 1 { at } else { usize::MAX });
    let mut probe = Probe::new(usize::MAX);
    if who == 2 {
        probe.fail_at = at;
    }
    let mut x = x0.clone();
    let max = 1;
    let r = ConjugateGradient::new().with_operator(&op).with_preconditioner(&pre).with_stopping_criterion(&probe).with_max_iter(max).solve_with_guess(&b, &mut x);
    let e = match r {
        Ok(_) => return c.holds("a failure is reported", false),
        Err(e) => e,
    };
    let k = e.output.num_iterations;
    let calls = (op.log.borrow().len(), pre.log.borrow().len(), probe.seen.borrow().len());
    match e.kind {
        SolveErrorKind::OperatorError(_) => c.holds("operator failure", who == 0 && calls.0 == at + 1 && k == at.saturating_sub(1)),
        SolveErrorKind::PreconditionerError(_) => c.holds("preconditioner failure", who == 1 && calls.1 == at + 1 && k == at),
        SolveErrorKind::StoppingCriterionError(_) => c.holds("criterion failure", who == 2 && calls.2 == at + 1 && k == at),
        SolveErrorKind::MaxIterationsReached { .. } => c.holds("limit only if nothing failed before", k == max && [calls.0, calls.1, calls.2][who] <= at),
        _ => {
            let r = residual(&a, &x, &b);
            c.eq("indefinite only at the exact solution", dot(&r, &r), T::zero());
        }
    }
    if k == 0 {
        same_slice(c, "the guess is kept", x.as_slice(), x0.as_slice());
    }
}
/// A workspace left by any earlier solve (of any size, complete or not) does not influence a solve.
fn cg_workspace<T: Real, C: Cx<T>>(c: &mut C) {
    let mut ws = CgWorkspace::default();
    let m = 1 + c.choose("earlier size", 3);
    let a0 = DMatrix::from_fn(m, m, |i, j| if i == j { c.var(&format!("d{i}"), 1.0, 4.0) } else { T::zero() });
    let b0 = vars(c, m, "e", 4.0);
    let s0 = dot(&b0, &b0);
    c.assume_lt(T::zero(), s0);
    let mut y = DVector::zeros(m);
    let pr = Probe::new(c.choose("earlier steps", 2));
    let _ = ConjugateGradient::with_workspace(&mut ws).with_operator(&a0).with_stopping_criterion(&pr).solve_with_guess(&b0, &mut y);
    let (a, p, b, x0) = system(c, 2, true, true);
    let b2 = dot(&b, &b);
    c.assume_lt(T::zero(), b2);
    let (mut x1, mut x2) = (x0.clone(), x0.clone());
    let (q1, q2) = (Probe::new(1), Probe::new(1));
    let r1 = ConjugateGradient::with_workspace(&mut ws).with_operator(&a).with_preconditioner(&p).with_stopping_criterion(&q1).solve_with_guess(&b, &mut x1);
    let r2 = ConjugateGradient::new().with_operator(&a).with_preconditioner(&p).with_stopping_criterion(&q2).solve_with_guess(&b, &mut x2);
    c.holds("same outcome", r1.is_ok() == r2.is_ok());
    same_slice(c, "same result", x1.as_slice(), x2.as_slice());
    same_slice(c, "same residual", q1.seen.borrow().last().unwrap().2.as_slice(), q2.seen.borrow().last().unwrap().2.as_slice());
    // and one solver object may be used again
    let mut x3 = x0.clone();
    let q3 = Probe::new(1);
    let mut s = ConjugateGradient::new().with_operator(&a).with_preconditioner(&p).with_stopping_criterion(&q3);
    let _ = s.solve_with_guess(&b, &mut x3);
    let mut x4 = x0.clone();
    let _ = s.solve_with_guess(&b, &mut x4);
    c.holds("reset before every solve", q3.resets.get() == 2);
    let first = &q3.seen.borrow()[0].2.clone();
    let again = residual(&a, &x0, &b);
    same_slice(c, "the first residual", first.as_slice(), again.as_slice());
}

/// A vector function about which nothing is known: every evaluation and every Jacobian solve returns arbitrary values.
struct Unknown<T: Scalar> {
    n: usize,
    vals: Vec<DVector<T>>,
    sols: Vec<DVector<T>>,
    fail_at: usize,
    evals: Rc<RefCell<Vec<(DVector<T>, DVector<T>)>>>,
    solves: Rc<RefCell<Vec<(DVector<T>, DVector<T>, DVector<T>)>>>,
}
impl<T: Real> VectorFunction<T> for Unknown<T> {
    fn dimension(&self) -> usize {
        self.n
    }
    fn eval_into(&mut self, f: &mut DVectorViewMut<T>, x: &DVectorView<T>) {
        let k = self.evals.borrow().len();
        f.copy_from(&self.vals[k.min(self.vals.len() - 1)]);
        self.evals.borrow_mut().push((x.clone_owned(), f.clone_owned()));
    }
}
impl<T: Real> DifferentiableVectorFunction<T> for Unknown<T> {
    fn solve_jacobian_system(&mut self, sol: &mut DVectorViewMut<T>, x: &DVectorView<T>, rhs: &DVectorView<T>) -> Result<(), Box<dyn Error>> {
        let k = self.solves.borrow().len();
        if k >= self.fail_at {
            return Err("singular".into());
        }
        sol.copy_from(&self.sols[k.min(self.sols.len() - 1)]);
        self.solves.borrow_mut().push((x.clone_owned(), rhs.clone_owned(), sol.clone_owned()));
        Ok(())
    }
}
fn unknown<T: Real, C: Cx<T>>(c: &mut C, n: usize, evals: usize, solves: usize) -> Unknown<T> {
    Unknown {
        n,
        vals: (0..evals).map(|k| vars(c, n, &format!("f{k}."), 4.0)).collect(),
        sols: (0..solves).map(|k| vars(c, n, &format!("d{k}."), 4.0)).collect(),
        fail_at: usize::MAX,
        evals: Default::default(),
        solves: Default::default(),
    }
}
fn norm2<T: Real>(v: &DVector<T>) -> T {
    dot(v, v)
}
/// For every function: the full Newton iteration evaluates x0, x0 - d0, ..., solves the Jacobian system at the current
/// point for the current value, stops exactly when |F| <= tol or the limit is hit, and leaves x and f of the last point.
fn newton_any<T: Real, C: Cx<T>>(c: &mut C, n: usize, max: usize) {
    let mut u = unknown(c, n, max + 1, max);
    let fail = c.choose("jacobian fails at", max + 1);
    if fail < max {
        u.fail_at = fail;
    }
    let (ev, so) = (u.evals.clone(), u.solves.clone());
    let x0 = vars(c, n, "x", 4.0);
    let (mut x, mut f, mut dx) = (x0.clone(), DVector::from_element(n, T::one()), DVector::from_element(n, T::one()));
    let tol = c.var("tol", 0.0, 1.0);
    let by_ref = c.choose("function by reference", 2) == 1;
    let settings = NewtonSettings { max_iterations: Some(max), tolerance: tol };
    let r = if by_ref {
        newton(&mut u, &mut x, &mut f, &mut dx, settings)
    } else {
        newton(u, &mut x, &mut f, &mut dx, settings)
    };
    let (ev, so) = (ev.borrow(), so.borrow());
    let t2 = tol * tol;
    let mut want = x0.clone();
    for (k, (p, _)) in ev.iter().enumerate() {
        if k > 0 {
            want -= &so[k - 1].2;
        }
        same_slice(c, "evaluated at the iterates", p.as_slice(), want.as_slice());
    }
    for (k, (p, rhs, _)) in so.iter().enumerate() {
        same_slice(c, "Jacobian at the iterate", p.as_slice(), ev[k].0.as_slice());
        same_slice(c, "Jacobian system for the value", rhs.as_slice(), ev[k].1.as_slice());
        c.lt("no step from a converged point", t2, norm2(&ev[k].1));
    }
    let last = ev.last().unwrap().clone();
    same_slice(c, "x is the last point", x.as_slice(), last.0.as_slice());
    same_slice(c, "f is the last value", f.as_slice(), last.1.as_slice());
    match r {
        Ok(k) => {
            c.holds("iterations are counted", k == so.len() && ev.len() == k + 1 && k <= max);
            c.le("converged", norm2(&f), t2);
        }
        Err(NewtonError::MaximumIterationsReached(k)) => {
            c.holds("the limit", k == max && so.len() == max && ev.len() == max + 1);
            c.lt("not converged", t2, norm2(&f));
        }
        Err(NewtonError::JacobianError(_)) => {
            c.holds("failed solve", so.len() == fail && fail < max && ev.len() == fail + 1);
            c.lt("not converged", t2, norm2(&f));
        }
        Err(NewtonError::LineSearchError(_)) => c.holds("no line search", false),
    }
}
/// A residual which is not a number is never a solution: no success is reported from such a point, and the iteration ends.
fn newton_undefined<T: Real, C: Cx<T>>(c: &mut C, search: bool) {
    let n = 2;
    let max = 2;
    let mut u = unknown(c, n, max + 1, max);
    let at = c.choose("undefined from evaluation", max + 1);
    let comp = c.choose("undefined component", n);
    for k in at..=max {
        u.vals[k][comp] = T::zero() / T::zero();
    }
    let ev = u.evals.clone();
    let x0 = vars(c, n, "x", 4.0);
    let (mut x, mut f, mut dx) = (x0.clone(), DVector::from_element(n, T::one()), DVector::from_element(n, T::one()));
    let tol = c.var("tol", 0.0, 1.0);
    // With a limit, and without one when the very first value is undefined or everything after it is
    let limit = if c.choose("limited", 2) == 1 { Some(max) } else { None };
    let settings = NewtonSettings { max_iterations: limit, tolerance: tol };
    let r = if search {
        newton_line_search(u, &mut x, &mut f, &mut dx, settings, &mut BacktrackingLineSearch)
    } else {
        newton(u, &mut x, &mut f, &mut dx, settings)
    };
    let ev = ev.borrow();
    if ev.len() > at {
        c.holds("no success without a residual", r.is_err());
    } else {
        c.holds("success before", matches!(r, Ok(k) if k + 1 <= ev.len()));
        c.le("converged", norm2(&ev.last().unwrap().1), tol * tol);
    }
}
/// Linear systems are solved in one step, quadratic ones converge as Newton's iteration prescribes.
fn newton_linear<T: Real, C: Cx<T>>(c: &mut C, backtracking: bool) {
    let a = DMatrix::from_fn(2, 2, |i, j| c.var(&format!("a{i}{j}"), -4.0, 4.0));
    let det = a[(0, 0)] * a[(1, 1)] - a[(0, 1)] * a[(1, 0)];
    c.assume_ne(det, T::zero());
    let b = vars(c, 2, "b", 4.0);
    let x0 = vars(c, 2, "x", 4.0);
    let tol = c.var("tol", 0.0, 1.0);
    let f = VectorFunctionBuilder::with_dimension(2)
        .with_function(|f: &mut DVectorViewMut<T>, x: &DVectorView<T>| f.copy_from(&(residual(&a, &x.clone_owned(), &b) * -T::one())))
        .with_jacobian_solver(|s: &mut DVectorViewMut<T>, _: &DVectorView<T>, r: &DVectorView<T>| {
            s[0] = (a[(1, 1)] * r[0] - a[(0, 1)] * r[1]) / det;
            s[1] = (a[(0, 0)] * r[1] - a[(1, 0)] * r[0]) / det;
            Ok(())
        });
    c.holds("dimension", VectorFunction::<T>::dimension(&f) == 2);
    let (mut x, mut fv, mut dx) = (x0.clone(), DVector::zeros(2), DVector::zeros(2));
    let settings = NewtonSettings { max_iterations: None, tolerance: tol };
    let r = if backtracking {
        newton_line_search(f, &mut x, &mut fv, &mut dx, settings, &mut BacktrackingLineSearch)
    } else {
        newton_line_search(f, &mut x, &mut fv, &mut dx, settings, &mut NoLineSearch)
    };
    let res = residual(&a, &x, &b);
    match r {
        Ok(0) => {
            same_slice(c, "nothing to do", x.as_slice(), x0.as_slice());
            c.le("converged", norm2(&res), tol * tol);
        }
        Ok(k) => {
            c.holds("one step", k == 1);
            same_slice(c, "solved", res.as_slice(), &[T::zero(), T::zero()]);
        }
        Err(_) => c.holds("succeeds", false),
    }
}
/// For every function: the step taken by the line search is the first of 1, 3/4, 1/2, 1/4, 1/16, ... with sufficient
/// decrease; x and f belong to that step; without such a step above the limit the search fails.
fn backtracking<T: Real, C: Cx<T>>(c: &mut C, n: usize, lo: usize, hi: usize) {
    let mut u = unknown(c, n, hi, 1);
    let small = c.int(1);
    // the first `lo` candidates are rejected by construction, to reach the deeper ones on few paths
    let ev = u.evals.clone();
    let f0 = vars(c, n, "g", 2.0);
    for k in 0..lo {
        u.vals[k] = DVector::from_fn(n, |i, _| f0[i] + f0[i]);
    }
    let g2 = norm2(&f0);
    c.assume_lt(T::zero(), g2);
    let x0 = vars(c, n, "x", 4.0);
    let p = vars(c, n, "p", 4.0);
    let (mut x, mut f) = (x0.clone(), f0.clone());
    let r = BacktrackingLineSearch.step(&mut u, DVectorViewMut::from(&mut f), DVectorViewMut::from(&mut x), DVectorView::from(&p));
    let ev = ev.borrow();
    let alphas = |c: &C, k: usize| match k {
        0 => small,
        1 => c.frac(3, 4),
        2 => c.frac(1, 2),
        k => c.frac(1, 4i64.pow(k as u32 - 2)),
    };
    let m = ev.len();
    let close = 1e-12;
    let sc = c.frac(1, 10000);
    for (k, (xk, fk)) in ev.iter().enumerate() {
        let al = alphas(c, k);
        for i in 0..n {
            c.eq_tol("candidate x0 + alpha p", xk[i], x0[i] + al * p[i], close);
        }
        let bound = (T::one() - sc * al) * g2;
        if k + 1 < m || r.is_err() {
            c.lt("rejected candidates decrease too little", bound, norm2(fk));
        } else {
            c.le_tol("accepted step decreases sufficiently", norm2(fk), bound, close);
        }
    }
    let last = ev.last().unwrap();
    same_slice(c, "x is the last candidate", x.as_slice(), last.0.as_slice());
    same_slice(c, "f is its value", f.as_slice(), last.1.as_slice());
    match r {
        Ok(a) => {
            let al = alphas(c, m - 1);
            c.eq_tol("step length", a, al, close);
        }
        Err(_) => {
            let al = alphas(c, m - 1);
            let lim = c.frac(1, 1000000);
            c.lt("fails only below the smallest step", al, lim);
        }
    }
}

/// A quadratic map with arbitrary coefficients, and its derivative.
struct Quad<T> {
    n: usize,
    m: usize,
    q: Vec<T>,
}
impl<T: Real> Quad<T> {
    fn mk<C: Cx<T>>(c: &mut C, m: usize, n: usize) -> Self {
        let k = m * (1 + n + n * (n + 1) / 2);
        Quad { n, m, q: (0..k).map(|i| c.var(&format!("q{i}"), -4.0, 4.0)).collect() }
    }
    fn at(&self, x: &[T]) -> Vec<T> {
        let per = self.q.len() / self.m;
        (0..self.m)
            .map(|r| {
                let q = &self.q[r * per..(r + 1) * per];
                let mut t = q[0];
                let mut k = 1;
                for i in 0..self.n {
                    t += q[k] * x[i];
                    k += 1;
                }
                for i in 0..self.n {
                    for j in 0..=i {
                        t += q[k] * x[i] * x[j];
                        k += 1;
                    }
                }
                t
            })
            .collect()
    }
    fn d(&self, x: &[T], r: usize, v: usize) -> T {
        let per = self.q.len() / self.m;
        let q = &self.q[r * per..(r + 1) * per];
        let mut t = q[1 + v];
        let mut k = 1 + self.n;
        for i in 0..self.n {
            for j in 0..=i {
                if i == v {
                    t += q[k] * x[j];
                }
                if j == v {
                    t += q[k] * x[i];
                }
                k += 1;
            }
        }
        t
    }
}
/// Central differences are exact for quadratic functions; x is restored; only x +- h e_i are evaluated.
fn fd<T: Real, C: Cx<T>>(c: &mut C, m: usize, n: usize) {
    let q = Quad::mk(c, m, n);
    let x0 = vars(c, n, "x", 4.0);
    let h = c.var("h", 0.0009765625, 1.0);
    let seen: RefCell<Vec<DVector<T>>> = Default::default();
    let mut x = x0.clone();
    let which = c.choose("routine", 5);
    let f = |x: DVectorView<T>, mut y: DVectorViewMut<T>| {
        seen.borrow_mut().push(x.clone_owned());
        for (a, b) in y.iter_mut().zip(q.at(x.clone_owned().as_slice())) {
            *a = b;
        }
    };
    let g = |x: DVectorView<T>| {
        seen.borrow_mut().push(x.clone_owned());
        q.at(x.clone_owned().as_slice())[0]
    };
    let j = match which {
        0 => approximate_jacobian_fd(m, f, &mut x, h),
        1 => {
            let mut j = DMatrix::from_fn(m, n, |i, k| c.var(&format!("old{i}.{k}"), -4.0, 4.0));
            approximate_jacobian_fd_into(&mut j, f, &mut x, h);
            j
        }
        2 => {
            let v = VectorFunctionBuilder::with_dimension(m).with_function(|y: &mut DVectorViewMut<T>, x: &DVectorView<T>| {
                f(x.clone(), DVectorViewMut::from(y))
            });
            approximate_jacobian(v, &x, &h)
        }
        3 => {
            let d = approximate_gradient_fd(g, &mut x, h);
            DMatrix::from_fn(1, n, |_, k| d[k])
        }
        _ => {
            let mut d = vars(c, n, "old", 4.0);
            approximate_gradient_fd_into(DVectorViewMut::from(&mut d), g, &mut x, h);
            DMatrix::from_fn(1, n, |_, k| d[k])
        }
    };
    c.holds("shape", j.nrows() == if which < 3 { m } else { 1 } && j.ncols() == n);
    for r in 0..j.nrows() {
        for k in 0..n {
            c.eq("derivative", j[(r, k)], q.d(x0.as_slice(), r, k));
        }
    }
    same_slice(c, "x is unchanged", x.as_slice(), x0.as_slice());
    let seen = seen.borrow();
    c.holds("two evaluations per variable", seen.len() == 2 * n);
    for (k, s) in seen.iter().enumerate() {
        for i in 0..n {
            let d = s[i] - x0[i];
            if i == k / 2 {
                c.eq("step length", d * d, h * h);
            } else {
                c.eq("other variables are kept", d, T::zero());
            }
        }
    }
}
/// The point is restored exactly, not by undoing the steps: even an undefined step leaves no trace.
fn fd_restore<T: Real, C: Cx<T>>(c: &mut C, n: usize) {
    let x0 = vars(c, n, "x", 4.0);
    let h = T::zero() / T::zero();
    let mut x = x0.clone();
    let at = |x: &DVectorView<T>| x.iter().fold(T::zero(), |s, v| s + *v);
    let f = |x: DVectorView<T>, mut y: DVectorViewMut<T>| y.fill(at(&x));
    let g = |x: DVectorView<T>| at(&x);
    match c.choose("routine", 4) {
        0 => drop(approximate_jacobian_fd(2, f, &mut x, h)),
        1 => approximate_jacobian_fd_into(&mut DMatrix::zeros(2, n), f, &mut x, h),
        2 => drop(approximate_gradient_fd(g, &mut x, h)),
        _ => approximate_gradient_fd_into(DVectorViewMut::from(&mut DVector::zeros(n)), g, &mut x, h),
    }
    same_slice(c, "x is unchanged", x.as_slice(), x0.as_slice());
}
/// The error for a cubic is of second order in h.
fn fd_order<T: Real, C: Cx<T>>(c: &mut C) {
    let (x, h, k) = (c.var("x", -4.0, 4.0), c.var("h", 0.0009765625, 1.0), c.var("k", -4.0, 4.0));
    let mut v = DVector::from_element(1, x);
    let d = approximate_gradient_fd(|y: DVectorView<T>| k * y[0] * y[0] * y[0], &mut v, h);
    let three = c.int(3);
    c.eq("error of central differences", d[0], three * k * x * x + k * h * h);
}

pub fn list() -> Vec<Harness> {
    let mut v = vec![];
    h!(v, "P20", "trace_1", Quick, "iterates and residuals, 1 unknown", |c| cg_trace(c, 1, 1, true));
    h!(v, "P20", "trace_2_1", Quick, "iterates and residuals, 2 unknowns, 1 step", |c| cg_trace(c, 2, 1, true));
    h!(v, "P20", "trace_2_2", Quick, "iterates and residuals, 2 unknowns, 2 steps, no guess", |c| cg_trace(c, 2, 2, false));
    h!(v, "P20", "trace_2_2_guess", Thorough, "iterates and residuals, 2 unknowns, 2 steps", |c| cg_trace(c, 2, 2, true));
    h!(v, "P20", "trace_3_1", Quick, "iterates and residuals, 3 unknowns, 1 step, no guess", |c| cg_trace(c, 3, 1, false));
    h!(v, "P20", "trace_3_1_guess", Thorough, "iterates and residuals, 3 unknowns, 1 step", |c| cg_trace(c, 3, 1, true));
    h!(v, "P20", "trace_3_2", Thorough, "iterates and residuals, 3 unknowns, 2 steps", |c| cg_trace(c, 3, 2, false));
    h!(v, "P20", "exact_1", Quick, "exact after 1 step", |c| cg_exact(c, 1, true));
    h!(v, "P20", "exact_2", Quick, "exact after 2 steps", |c| cg_exact(c, 2, false));
    h!(v, "P20", "exact_2_guess", Thorough, "exact after 2 steps", |c| cg_exact(c, 2, true));
    h!(v, "P20", "larger_4", Quick, "every number of steps for 4 unknowns", |c| cg_larger(c, 4));
    h!(v, "P20", "larger_9", Quick, "every number of steps for 9 unknowns", |c| cg_larger(c, 9));
    h!(v, "P20", "relative_1", Quick, "relative residual criterion", |c| cg_relative(c, 1, 2, true));
    h!(v, "P20", "relative_2", Thorough, "relative residual criterion, no guess", |c| cg_relative(c, 2, 1, false));
    h!(v, "P20", "relative_2_guess", Thorough, "relative residual criterion", |c| cg_relative(c, 2, 1, true));
    h!(v, "P20", "zero_2", Quick, "vanishing right-hand side", |c| cg_zero(c, 2));
    h!(v, "P20", "indefinite_1", Quick, "indefinite preconditioners, 1 unknown", |c| cg_indefinite(c, 1, 1));
    h!(v, "P20", "indefinite_2", Quick, "indefinite preconditioners, 2 unknowns", |c| cg_indefinite(c, 2, 1));
    h!(v, "P20", "limit", Quick, "the iteration limit", |c| cg_limit(c));
    h!(v, "P20", "failures", Quick, "failures are passed on", |c| cg_failures(c));
    h!(v, "P20", "workspace", Quick, "workspaces carry nothing over", |c| cg_workspace(c));
    h!(v, "P21", "any_1_1", Quick, "every function, 1 unknown", |c| newton_any(c, 1, 1));
    h!(v, "P21", "any_1_3", Quick, "every function, 1 unknown, 3 steps", |c| newton_any(c, 1, 3));
    h!(v, "P21", "any_2_2", Quick, "every function, 2 unknowns, 2 steps", |c| newton_any(c, 2, 2));
    h!(v, "P21", "any_0", Quick, "no step allowed", |c| newton_any(c, 2, 0));
    h!(v, "P21", "any_3_4", Thorough, "every function, 3 unknowns, 4 steps", |c| newton_any(c, 3, 4));
    h!(v, "P21", "undefined_residual", Quick, "residuals which are not numbers", |c| newton_undefined(c, false));
    h!(v, "P21", "undefined_residual_search", Quick, "residuals which are not numbers, with a line search", |c| newton_undefined(c, true));
    h!(v, "P21", "linear", Quick, "linear systems", |c| newton_linear(c, false));
    h!(v, "P21", "linear_backtracking", Quick, "linear systems", |c| newton_linear(c, true));
    h!(v, "P21", "backtracking_1", Quick, "line search for every function", |c| backtracking(c, 1, 0, 3));
    h!(v, "P21", "backtracking_1_deep", Quick, "line search for every function, many rejections", |c| backtracking(c, 1, 3, 12));
    h!(v, "P21", "backtracking_2", Quick, "line search for every function", |c| backtracking(c, 2, 0, 12));
    h!(v, "P22", "fd_1_1", Quick, "central differences", |c| fd(c, 1, 1));
    h!(v, "P22", "fd_2_2", Quick, "central differences", |c| fd(c, 2, 2));
    h!(v, "P22", "fd_1_3", Quick, "central differences", |c| fd(c, 1, 3));
    h!(v, "P22", "fd_3_2", Quick, "central differences", |c| fd(c, 3, 2));
    h!(v, "P22", "fd_2_3", Quick, "central differences", |c| fd(c, 2, 3));
    h!(v, "P22", "fd_3_4", Thorough, "central differences", |c| fd(c, 3, 4));
    h!(v, "P22", "fd_restore", Quick, "exact restoration of the point", |c| fd_restore(c, 3));
    h!(v, "P22", "fd_order", Quick, "second order", |c| fd_order(c));
    v
}
