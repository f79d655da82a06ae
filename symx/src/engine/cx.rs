//! The harness interface: one generic harness body, run symbolically (`Sym`) and natively (`f64`).
use super::dag::*;
use super::explore::*;
use super::sym::Sym;
use fenris_traits::Real;
use std::collections::BTreeMap;

pub trait Cx<T: Real> {
    /// An arbitrary real in [lo, hi].
    fn var(&mut self, name: &str, lo: f64, hi: f64) -> T;
    /// An arbitrary index in 0..n (explored exhaustively).
    fn choose(&mut self, name: &str, n: usize) -> usize;
    fn assume_ne(&mut self, a: T, b: T);
    fn assume_lt(&mut self, a: T, b: T);
    fn assume_le(&mut self, a: T, b: T);
    fn assume_eq(&mut self, a: T, b: T);
    /// a < b or c < d
    fn assume_lt_or(&mut self, a: T, b: T, c: T, d: T);
    fn eq(&mut self, what: &str, a: T, b: T);
    fn eq_tol(&mut self, what: &str, a: T, b: T, tol: f64);
    fn ne(&mut self, what: &str, a: T, b: T);
    fn le(&mut self, what: &str, a: T, b: T);
    /// a <= b + tol
    fn le_tol(&mut self, what: &str, a: T, b: T, tol: f64);
    fn lt(&mut self, what: &str, a: T, b: T);
    fn holds(&mut self, what: &str, b: bool);
    /// a is +infinity (symbolically: not a real number).
    fn infinite(&mut self, what: &str, a: T);
    /// a is not a number.
    fn undefined(&mut self, what: &str, a: T);
    /// Derivative of output k of f in direction of input i at x (symbolic: exact; native: central
    /// differences). Returns the matrix out x in.
    fn jacobian(&mut self, x: &[T], f: &dyn Fn(&[T]) -> Vec<T>) -> Vec<Vec<T>>;
    /// Replay tolerance factor for derivative checks (native differences are inexact).
    fn eq_diff(&mut self, what: &str, a: T, b: T);
    /// Require every divisor / square root / logarithm argument to be provably defined.
    fn prove_defined(&mut self);
    fn symbolic(&self) -> bool;
    /// Oracle-side constants only: a constant rounded to a multiple of 2^-64 (identity if not a constant, or natively).
    fn short(&self, x: T) -> T;
    fn lit(&self, x: f64) -> T {
        T::from_f64(x).unwrap()
    }
    fn int(&self, x: i64) -> T {
        T::from_i64(x).unwrap()
    }
    fn frac(&self, a: i64, b: i64) -> T {
        T::from_i64(a).unwrap() / T::from_i64(b).unwrap()
    }
}

pub struct SymCx;

fn diffn(a: Sym, b: Sym) -> u32 {
    with(|e| e.dag.sub(a.0, b.0))
}
fn obs(what: &str, a: Sym, b: Sym) {
    with(|e| e.obs.push(Obs { what: what.into(), a: a.0, b: b.0 }));
}

impl SymCx {
    fn assume(&mut self, c: Vec<Atom>) {
        with(|e| e.assume(c))
    }
    fn check(&mut self, what: &str, a: Sym, b: Sym, mask: u8, tol: Option<f64>) {
        obs(what, a, b);
        let node = diffn(a, b);
        with(|e| {
            e.pair = Some((a.0, b.0));
            e.check_atom(what, Atom { node, mask }, tol);
            e.pair = None;
        });
    }
}

impl Cx<Sym> for SymCx {
    fn var(&mut self, name: &str, lo: f64, hi: f64) -> Sym {
        Sym(with(|e| e.var(name, Some(lo), Some(hi))))
    }
    fn choose(&mut self, name: &str, n: usize) -> usize {
        with(|e| e.choose(name, n))
    }
    fn assume_ne(&mut self, a: Sym, b: Sym) {
        let node = diffn(a, b);
        self.assume(vec![Atom { node, mask: NEG | POS }])
    }
    fn assume_lt(&mut self, a: Sym, b: Sym) {
        let node = diffn(a, b);
        self.assume(vec![Atom { node, mask: NEG }])
    }
    fn assume_le(&mut self, a: Sym, b: Sym) {
        let node = diffn(a, b);
        self.assume(vec![Atom { node, mask: NEG | ZERO }])
    }
    fn assume_eq(&mut self, a: Sym, b: Sym) {
        let node = diffn(a, b);
        self.assume(vec![Atom { node, mask: ZERO }])
    }
    fn assume_lt_or(&mut self, a: Sym, b: Sym, c: Sym, d: Sym) {
        let n1 = diffn(a, b);
        let n2 = diffn(c, d);
        self.assume(vec![Atom { node: n1, mask: NEG }, Atom { node: n2, mask: NEG }])
    }
    fn eq(&mut self, what: &str, a: Sym, b: Sym) {
        self.check(what, a, b, ZERO, None)
    }
    fn eq_tol(&mut self, what: &str, a: Sym, b: Sym, tol: f64) {
        self.check(what, a, b, ZERO, Some(tol))
    }
    fn eq_diff(&mut self, what: &str, a: Sym, b: Sym) {
        self.check(what, a, b, ZERO, None)
    }
    fn ne(&mut self, what: &str, a: Sym, b: Sym) {
        self.check(what, a, b, NEG | POS, None)
    }
    fn le(&mut self, what: &str, a: Sym, b: Sym) {
        self.check(what, a, b, NEG | ZERO, None)
    }
    fn le_tol(&mut self, what: &str, a: Sym, b: Sym, tol: f64) {
        self.check(what, a, b, NEG | ZERO, Some(tol))
    }
    fn lt(&mut self, what: &str, a: Sym, b: Sym) {
        self.check(what, a, b, NEG, None)
    }
    fn holds(&mut self, what: &str, b: bool) {
        with(|e| {
            *e.stats.by_name.entry(what.to_string()).or_insert(0) += 1;
            e.stats.checks += 1;
            e.stats.bool_checks += 1;
            if !b {
                e.fail_here(what, "boolean assertion fails on a feasible path");
            }
        })
    }
    fn infinite(&mut self, what: &str, a: Sym) {
        let u = with(|e| e.dag.is_undef(a.0));
        self.holds(what, u)
    }
    fn undefined(&mut self, what: &str, a: Sym) {
        let u = with(|e| e.dag.is_undef(a.0));
        self.holds(what, u)
    }
    fn jacobian(&mut self, x: &[Sym], f: &dyn Fn(&[Sym]) -> Vec<Sym>) -> Vec<Vec<Sym>> {
        let y = f(x);
        with(|e| {
            let mut rows: Vec<Vec<Sym>> = vec![vec![]; y.len()];
            for xi in x {
                let mut memo = Default::default();
                for (k, yk) in y.iter().enumerate() {
                    let d = e.dag.diff(yk.0, xi.0, &mut memo);
                    rows[k].push(Sym(d));
                }
            }
            rows
        })
    }
    fn prove_defined(&mut self) {
        with(|e| e.div_policy = DivPolicy::Prove)
    }
    fn symbolic(&self) -> bool {
        true
    }
    fn short(&self, x: Sym) -> Sym {
        with(|e| match e.dag.as_const(x.0) {
            Some(r) => {
                let k: num::BigInt = num::BigInt::from(1) << 64usize;
                let n = (r.clone() * super::poly::Rat::from_integer(k.clone())).round().to_integer();
                let i = e.dag.konst(super::poly::Rat::new(n, k));
                Sym(i)
            }
            None => x,
        })
    }
}

/// Native run of a harness at concrete values.
#[derive(Default)]
pub struct F64Cx {
    pub values: BTreeMap<String, f64>,
    pub choices: Vec<(String, usize)>,
    pub pos: usize,
    pub failures: Vec<String>,
    pub invalid: Option<String>,
    pub trace: Vec<(String, f64, f64)>,
    pub desync: bool,
}

const EPS: f64 = 1e-9;

impl F64Cx {
    fn scale(a: f64, b: f64) -> f64 {
        1.0 + a.abs().max(b.abs())
    }
    fn bad_assume(&mut self, s: String) {
        if self.invalid.is_none() && self.failures.is_empty() {
            self.invalid = Some(s);
        }
    }
    fn fail(&mut self, what: &str, a: f64, b: f64, rel: &str) {
        if self.invalid.is_none() {
            self.failures.push(format!("{}: {:e} {} {:e} does not hold", what, a, rel, b));
        }
    }
}

impl Cx<f64> for F64Cx {
    fn var(&mut self, name: &str, lo: f64, hi: f64) -> f64 {
        let v = self.values.get(name).copied().unwrap_or((lo + hi) / 2.0);
        if v < lo - 1e-9 || v > hi + 1e-9 {
            self.bad_assume(format!("{} out of range", name));
        }
        v
    }
    fn choose(&mut self, name: &str, n: usize) -> usize {
        if self.pos < self.choices.len() {
            let (c, k) = self.choices[self.pos].clone();
            self.pos += 1;
            if c != name {
                self.desync = true;
            }
            k.min(n - 1)
        } else {
            self.desync = true;
            0
        }
    }
    fn assume_ne(&mut self, a: f64, b: f64) {
        if a == b {
            self.bad_assume("assume_ne".into())
        }
    }
    fn assume_lt(&mut self, a: f64, b: f64) {
        if !(a <= b + EPS * Self::scale(a, b)) {
            self.bad_assume("assume_lt".into())
        }
    }
    fn assume_le(&mut self, a: f64, b: f64) {
        if !(a <= b + EPS * Self::scale(a, b)) {
            self.bad_assume("assume_le".into())
        }
    }
    fn assume_eq(&mut self, a: f64, b: f64) {
        if !((a - b).abs() <= EPS * Self::scale(a, b)) {
            self.bad_assume("assume_eq".into())
        }
    }
    fn assume_lt_or(&mut self, a: f64, b: f64, c: f64, d: f64) {
        if !(a <= b + EPS || c <= d + EPS) {
            self.bad_assume("assume_lt_or".into())
        }
    }
    fn eq(&mut self, what: &str, a: f64, b: f64) {
        self.trace.push((what.into(), a, b));
        if !((a - b).abs() <= EPS * Self::scale(a, b)) {
            self.fail(what, a, b, "=")
        }
    }
    fn eq_tol(&mut self, what: &str, a: f64, b: f64, tol: f64) {
        self.trace.push((what.into(), a, b));
        if !((a - b).abs() <= 0.9 * tol) {
            self.fail(what, a, b, "~=")
        }
    }
    fn eq_diff(&mut self, what: &str, a: f64, b: f64) {
        self.trace.push((what.into(), a, b));
        if !((a - b).abs() <= 2e-4 * Self::scale(a, b)) {
            self.fail(what, a, b, "=")
        }
    }
    fn ne(&mut self, what: &str, a: f64, b: f64) {
        self.trace.push((what.into(), a, b));
        if !((a - b).abs() > EPS) {
            self.fail(what, a, b, "!=")
        }
    }
    fn le(&mut self, what: &str, a: f64, b: f64) {
        self.trace.push((what.into(), a, b));
        if !(a <= b + EPS * Self::scale(a, b)) {
            self.fail(what, a, b, "<=")
        }
    }
    fn le_tol(&mut self, what: &str, a: f64, b: f64, tol: f64) {
        self.trace.push((what.into(), a, b));
        if !(a <= b + 0.9 * tol) {
            self.fail(what, a, b, "<=~")
        }
    }
    fn lt(&mut self, what: &str, a: f64, b: f64) {
        self.trace.push((what.into(), a, b));
        if !(a < b) {
            self.fail(what, a, b, "<")
        }
    }
    fn holds(&mut self, what: &str, b: bool) {
        if !b && self.invalid.is_none() {
            self.failures.push(format!("{}: does not hold", what));
        }
    }
    fn infinite(&mut self, what: &str, a: f64) {
        self.holds(what, a == f64::INFINITY)
    }
    fn undefined(&mut self, what: &str, a: f64) {
        self.holds(what, a.is_nan())
    }
    fn jacobian(&mut self, x: &[f64], f: &dyn Fn(&[f64]) -> Vec<f64>) -> Vec<Vec<f64>> {
        let h = 1e-5;
        let n = f(x).len();
        let mut rows = vec![vec![0.0; x.len()]; n];
        let mut y = x.to_vec();
        for i in 0..x.len() {
            y[i] = x[i] + h;
            let p = f(&y);
            y[i] = x[i] - h;
            let m = f(&y);
            y[i] = x[i];
            for k in 0..n {
                rows[k][i] = (p[k] - m[k]) / (2.0 * h);
            }
        }
        rows
    }
    fn prove_defined(&mut self) {}
    fn symbolic(&self) -> bool {
        false
    }
    fn short(&self, x: f64) -> f64 {
        x
    }
}
