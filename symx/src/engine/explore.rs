//! Path exploration by re-execution, with feasibility and assertions decided by an SMT solver.
use super::dag::*;
use super::poly::{Poly, Rat};
use super::solver::{Answer, Solver};
use num::{One, Signed, Zero};
use parking_lot::Mutex;
use rustc_hash::{FxHashMap, FxHashSet};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::time::Instant;

pub static ENG: Mutex<Option<Eng>> = Mutex::new(None);

pub fn with<R>(f: impl FnOnce(&mut Eng) -> R) -> R {
    let mut g = ENG.lock();
    f(g.as_mut().expect("symbolic engine is not running"))
}

/// Unwinds the current path (infeasible assumption or engine-level stop).
pub struct PathStop(pub &'static str);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DivPolicy {
    /// Divisors are assumed non-zero (inputs making one zero are outside the claim).
    Assume,
    /// A divisor that can be zero on a feasible path is a violation.
    Prove,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub lo: Option<f64>,
    pub hi: Option<f64>,
    pub node: u32,
}

pub type Model = BTreeMap<u32, f64>;

#[derive(Clone, Debug)]
pub struct Obs {
    pub what: String,
    pub a: u32,
    pub b: u32,
}

#[derive(Clone, Debug)]
pub struct Candidate {
    pub what: String,
    pub detail: String,
    pub values: BTreeMap<String, f64>,
    pub exact: BTreeMap<String, String>,
    pub choices: Vec<(String, usize)>,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub paths: u64,
    pub infeasible_paths: u64,
    pub forks: u64,
    pub checks: u64,
    pub checks_distinct: u64,
    pub checks_by_normal_form: u64,
    pub checks_by_solver: u64,
    pub confirmed: u64,
    pub confirm_total: u64,
    pub confirm_disagree: u64,
    pub checks_by_tolerance: u64,
    pub bool_checks: u64,
    pub div_assumed: u64,
    pub undecided: Vec<String>,
    pub unknown_feasibility: u64,
    pub traces_validated: u64,
    pub traces_diverged: u64,
    pub trace_mismatch: Vec<String>,
    pub by_name: BTreeMap<String, u64>,
    pub max_poly_terms: usize,
    pub opaque_nodes: usize,
    pub nodes: usize,
    pub samples: Vec<String>,
}

pub struct Eng {
    pub dag: Dag,
    pub solver: Solver,
    pub vars: Vec<VarInfo>,
    var_by_name: FxHashMap<String, u32>,
    pub stats: Stats,
    pub div_policy: DivPolicy,
    pub fast_ms: u64,
    pub full_ms: u64,
    pub feas_ms: u64,
    // per path
    prefix: Vec<u32>,
    pub taken: Vec<u32>,
    taken_key: Vec<u64>,
    prefix_key: Vec<u64>,
    pub known: FxHashMap<u32, u8>,
    /// Memo of `resolve`, valid for the current content of `known`.
    resolved: FxHashMap<u32, u32>,
    pub path: Vec<Vec<Atom>>,
    pub model: Option<Model>,
    pub choices: Vec<(String, usize)>,
    pub obs: Vec<Obs>,
    worklist: Vec<(Vec<u32>, Vec<u64>, Option<Model>)>,
    done_checks: FxHashSet<(u64, u32, u8)>,
    confirm: BTreeSet<(u32, u32, u8)>,
    /// The two sides of the comparison being checked.
    pub pair: Option<(u32, u32)>,
    pub candidates: Vec<Candidate>,
    sat_cache: FxHashMap<u64, bool>,
    pub started: Instant,
    pub budget_s: f64,
    pub error: Option<String>,
}

fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = rustc_hash::FxHasher::default();
    t.hash(&mut h);
    h.finish()
}

impl Eng {
    pub fn new() -> Self {
        Eng {
            dag: Dag::new(),
            solver: Solver::new(),
            vars: vec![],
            var_by_name: Default::default(),
            stats: Default::default(),
            div_policy: DivPolicy::Assume,
            fast_ms: 1500,
            full_ms: 20000,
            feas_ms: 3000,
            prefix: vec![],
            taken: vec![],
            taken_key: vec![],
            prefix_key: vec![],
            known: Default::default(),
            resolved: Default::default(),
            path: vec![],
            model: Some(Default::default()),
            choices: vec![],
            obs: vec![],
            worklist: vec![(vec![], vec![], Some(Default::default()))],
            done_checks: Default::default(),
            confirm: Default::default(),
            pair: None,
            candidates: vec![],
            sat_cache: Default::default(),
            started: Instant::now(),
            budget_s: 300.0,
            error: None,
        }
    }

    pub fn out_of_time(&self) -> bool {
        self.started.elapsed().as_secs_f64() > self.budget_s
    }

    /// Starts the next pending path; false when exploration is complete.
    pub fn next_path(&mut self) -> bool {
        match self.worklist.pop() {
            None => false,
            Some((p, k, m)) => {
                self.prefix = p;
                self.prefix_key = k;
                self.taken.clear();
                self.taken_key.clear();
                self.known.clear();
                self.resolved.clear();
                self.path.clear();
                self.choices.clear();
                self.obs.clear();
                self.model = m;
                true
            }
        }
    }

    pub fn pending(&self) -> usize {
        self.worklist.len()
    }

    pub fn var(&mut self, name: &str, lo: Option<f64>, hi: Option<f64>) -> u32 {
        let key = name.to_string();
        if let Some(&v) = self.var_by_name.get(&key) {
            let i = &self.vars[v as usize];
            if (i.lo, i.hi) != (lo, hi) {
                // the bounds of a variable hold on every path: one with other bounds needs another name
                eprintln!("variable {name} is declared with different bounds");
                std::process::exit(2);
            }
            return i.node;
        }
        let idx = self.vars.len() as u32;
        let node = self.dag.mk(Node::Var(idx));
        self.vars.push(VarInfo { name: key.clone(), lo, hi, node });
        self.var_by_name.insert(key, idx);
        node
    }

    fn default_value(&self, v: u32) -> f64 {
        let i = &self.vars[v as usize];
        let (lo, hi) = (i.lo.unwrap_or(-4.0), i.hi.unwrap_or(4.0));
        // deterministic, generic, dyadic
        let k = ((v as u64).wrapping_mul(2654435761).wrapping_add(97) >> 3) % 61;
        let t = (k as f64 + 1.0) / 64.0;
        let x = lo + (hi - lo) * t;
        (x * 1024.0).round() / 1024.0
    }

    fn model_val(&self, m: &Model, v: u32) -> f64 {
        m.get(&v).copied().unwrap_or_else(|| self.default_value(v))
    }

    pub fn eval_in(&self, m: &Model, node: u32, memo: &mut FxHashMap<u32, f64>) -> f64 {
        let f = |v: u32| self.model_val(m, v);
        self.dag.eval(node, &f, memo)
    }

    /// Sign of a node under a model if numerically clear.
    fn model_sign(&self, m: &Model, node: u32) -> Option<u8> {
        let mut memo = Default::default();
        let v = self.eval_in(m, node, &mut memo);
        // crude conditioning estimate: largest intermediate magnitude
        let scale = memo.values().fold(1.0f64, |a, b| if b.is_finite() { a.max(b.abs()) } else { a });
        if !v.is_finite() {
            return None;
        }
        if v > 1e-10 * scale {
            Some(POS)
        } else if v < -1e-10 * scale {
            Some(NEG)
        } else {
            None
        }
    }

    fn clause_holds(&self, m: &Model, c: &[Atom]) -> bool {
        c.iter().any(|a| matches!(self.model_sign(m, a.node), Some(s) if s & a.mask != 0))
    }

    /// Known sign set of a node on this path: mask of possible signs.
    fn possible(&mut self, node: u32) -> u8 {
        match self.dag.sign_poly(node) {
            Err(m) => m,
            Ok((p, flipped)) => {
                let poly = self.dag.factors[p as usize].clone();
                let mut k = self.dag.quick_sign(&poly);
                if let Some(&m) = self.known.get(&p) {
                    k &= m;
                }
                if flipped {
                    flip(k)
                } else {
                    k
                }
            }
        }
    }

    /// The same value with absolute values and case distinctions replaced whose sign the path decides
    /// (they may have been computed before the branch which decided it).
    fn resolve(&mut self, node: u32) -> u32 {
        if self.known.is_empty() {
            return node;
        }
        let mut stack = vec![(node, false)];
        while let Some((n, done)) = stack.pop() {
            if self.resolved.contains_key(&n) {
                continue;
            }
            let nd = self.dag.nodes[n as usize].clone();
            let kids: Vec<u32> = match &nd {
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) | Node::Atan2(a, b) | Node::Pow(a, b) => vec![*a, *b],
                Node::Sqrt(a) | Node::Abs(a) | Node::Fun(_, a) => vec![*a],
                Node::Ite(c, _, a, b) => vec![*c, *a, *b],
                Node::Const(_) | Node::Var(_) | Node::Undef => vec![],
            };
            if !done && kids.iter().any(|k| !self.resolved.contains_key(k)) {
                stack.push((n, true));
                stack.extend(kids.iter().map(|k| (*k, false)));
                continue;
            }
            let k: Vec<u32> = kids.iter().map(|k| self.resolved[k]).collect();
            let r = match &nd {
                Node::Abs(_) => match self.possible(k[0]) {
                    p if p & 1 == 0 => k[0],
                    p if p & 4 == 0 => self.dag.neg(k[0]),
                    _ if k == kids => n,
                    _ => self.dag.abs(k[0]),
                },
                Node::Ite(_, m, ..) => match self.possible(k[0]) {
                    p if p & !m == 0 => k[1],
                    p if p & m == 0 => k[2],
                    _ if k == kids => n,
                    _ => self.dag.ite(k[0], *m, k[1], k[2]),
                },
                _ if k == kids => n,
                Node::Add(..) => self.dag.add(k[0], k[1]),
                Node::Sub(..) => self.dag.sub(k[0], k[1]),
                Node::Mul(..) => self.dag.mul(k[0], k[1]),
                Node::Div(..) => self.dag.div(k[0], k[1]),
                Node::Sqrt(_) => self.dag.sqrt(k[0]),
                // arguments of functions are left alone: they share generators by normal form
                _ => n,
            };
            self.resolved.insert(n, r);
        }
        self.resolved[&node]
    }

    /// Signs possible irrespective of the path.
    fn unconditional(&mut self, node: u32) -> u8 {
        match self.dag.sign_poly(node) {
            Err(m) => m,
            Ok((p, flipped)) => {
                let poly = self.dag.factors[p as usize].clone();
                let k = self.dag.quick_sign(&poly);
                if flipped {
                    flip(k)
                } else {
                    k
                }
            }
        }
    }

    /// Gives the assertions which the normal form already settled to the solver as well: the terms
    /// are emitted as the code computed them (fractions of unexpanded numerators and denominators),
    /// the query asks for values which falsify any of them.
    pub fn confirm_all(&mut self, budget_s: f64) {
        let t0 = Instant::now();
        for (a, b) in std::mem::take(&mut self.dag.unified) {
            if self.confirm.len() < 480 {
                self.confirm.insert((a, b, ZERO));
            }
        }
        let all: Vec<(u32, u32, u8)> = self.confirm.iter().copied().collect();
        let mut stack: Vec<Vec<(u32, u32, u8)>> = all.chunks(24).map(|c| c.to_vec()).collect();
        stack.reverse();
        self.path.clear();
        self.model = None;
        while let Some(chunk) = stack.pop() {
            if t0.elapsed().as_secs_f64() > budget_s {
                break;
            }
            let body = self.raw_query(&chunk);
            let Some(body) = body else { continue };
            match self.solver.query("QF_NRA", &body, &[], 1500, 0) {
                Answer::Unsat => self.stats.confirmed += chunk.len() as u64,
                Answer::Sat(_) | Answer::Unknown(_) if chunk.len() > 1 => {
                    let h = chunk.len() / 2;
                    stack.push(chunk[h..].to_vec());
                    stack.push(chunk[..h].to_vec());
                }
                Answer::Sat(_) => self.stats.confirm_disagree += 1,
                Answer::Unknown(_) => {}
            }
        }
        self.stats.confirm_total = all.len() as u64;
    }

    fn raw_query(&mut self, atoms: &[(u32, u32, u8)]) -> Option<String> {
        // reachable arithmetic nodes
        let mut reach: BTreeSet<u32> = Default::default();
        let mut todo: Vec<u32> = atoms.iter().flat_map(|a| [a.0, a.1]).collect();
        let mut gens: BTreeSet<u32> = Default::default();
        while let Some(n) = todo.pop() {
            if !reach.insert(n) {
                continue;
            }
            match self.dag.nodes[n as usize] {
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) => {
                    todo.push(a);
                    todo.push(b);
                }
                Node::Const(_) => {}
                Node::Undef => return None,
                _ => {
                    gens.insert(n);
                }
            }
            if reach.len() > 30000 {
                return None;
            }
        }
        let mut deg = 0;
        let (axioms, has_int) = self.close_gens(&mut gens, &mut deg);
        if has_int {
            return None;
        }
        let mut body = String::new();
        for g in &gens {
            let n = self.gen_name(*g);
            let _ = writeln!(body, "(declare-fun {} () Real)", n);
            if let Node::Var(v) = self.dag.nodes[*g as usize] {
                let vi = &self.vars[v as usize];
                if let Some(lo) = vi.lo {
                    let _ = writeln!(body, "(assert (>= {} {}))", n, Self::render_rat(&rat_from_f64(lo)));
                }
                if let Some(hi) = vi.hi {
                    let _ = writeln!(body, "(assert (<= {} {}))", n, Self::render_rat(&rat_from_f64(hi)));
                }
            }
        }
        for a in axioms {
            let _ = writeln!(body, "(assert {})", a);
        }
        // every node as (numerator, denominator)
        let mut nd: FxHashMap<u32, (String, Option<String>)> = Default::default();
        let mut divisors: BTreeSet<String> = Default::default();
        for &n in &reach {
            let node = self.dag.nodes[n as usize].clone();
            let get = |i: u32| nd.get(&i).cloned().unwrap();
            let def = |tag: &str, t: String, body: &mut String| -> String {
                let nm = format!("{}{}", tag, n);
                let _ = writeln!(body, "(define-fun {} () Real {})", nm, t);
                nm
            };
            let r = match node {
                Node::Const(c) => (Self::render_rat(&c), None),
                Node::Add(a, b) | Node::Sub(a, b) => {
                    let op = if matches!(node, Node::Add(..)) { "+" } else { "-" };
                    let ((n1, d1), (n2, d2)) = (get(a), get(b));
                    let (t, d) = match (d1, d2) {
                        (None, None) => (format!("({op} {n1} {n2})"), None),
                        (Some(d), None) => (format!("({op} {n1} (* {n2} {d}))"), Some(d)),
                        (None, Some(d)) => (format!("({op} (* {n1} {d}) {n2})"), Some(d)),
                        (Some(d), Some(e)) if d == e => (format!("({op} {n1} {n2})"), Some(d)),
                        (Some(d), Some(e)) => {
                            let q = def("d", format!("(* {d} {e})"), &mut body);
                            (format!("({op} (* {n1} {e}) (* {n2} {d}))"), Some(q))
                        }
                    };
                    (def("n", t, &mut body), d)
                }
                Node::Mul(a, b) => {
                    let ((n1, d1), (n2, d2)) = (get(a), get(b));
                    let d = match (d1, d2) {
                        (None, None) => None,
                        (Some(d), None) | (None, Some(d)) => Some(d),
                        (Some(d), Some(e)) => Some(def("d", format!("(* {d} {e})"), &mut body)),
                    };
                    (def("n", format!("(* {n1} {n2})"), &mut body), d)
                }
                Node::Div(a, b) => {
                    let ((n1, d1), (n2, d2)) = (get(a), get(b));
                    divisors.insert(n2.clone());
                    let num = match d2 {
                        None => n1,
                        Some(e) => def("n", format!("(* {n1} {e})"), &mut body),
                    };
                    let den = match d1 {
                        None => n2,
                        Some(d) => def("d", format!("(* {d} {n2})"), &mut body),
                    };
                    (num, Some(den))
                }
                _ => (self.gen_name(n), None),
            };
            nd.insert(n, r);
        }
        for d in divisors {
            let _ = writeln!(body, "(assert (not (= {} 0.0)))", d);
        }
        let mut alts = vec![];
        for (x, y, mask) in atoms {
            let ((n1, d1), (n2, d2)) = (nd[x].clone(), nd[y].clone());
            let one = "1.0".to_string();
            let (d1, d2) = (d1.unwrap_or(one.clone()), d2.unwrap_or(one));
            let num = if d1 == d2 { format!("(- {n1} {n2})") } else { format!("(- (* {n1} {d2}) (* {n2} {d1}))") };
            let t = if *mask == ZERO || *mask == NEG | POS || (d1 == "1.0" && d2 == "1.0") {
                num
            } else if d1 == d2 {
                format!("(* {num} {d1})")
            } else {
                format!("(* {num} {d1} {d2})")
            };
            alts.push(Self::render_mask(&t, 7 & !mask));
        }
        let _ = writeln!(body, "(assert (or {} false))", alts.join(" "));
        Some(body)
    }

    fn learn(&mut self, node: u32, mask: u8) {
        if let Ok((p, flipped)) = self.dag.sign_poly(node) {
            let m = if flipped { flip(mask) } else { mask };
            let e = self.known.entry(p).or_insert(7);
            if *e & m != *e {
                *e &= m;
                self.resolved.clear();
            }
        }
    }

    fn push_clause(&mut self, c: Vec<Atom>) {
        if c.len() == 1 {
            self.learn(c[0].node, c[0].mask);
        }
        self.path.push(c);
    }

    fn decide(&mut self, key: u64) -> Option<u32> {
        let i = self.taken.len();
        if i < self.prefix.len() {
            if self.prefix_key[i] != key {
                self.error = Some(format!("non-deterministic re-execution at decision {}", i));
                drop_panic("nondeterminism");
            }
            let d = self.prefix[i];
            self.taken.push(d);
            self.taken_key.push(key);
            Some(d)
        } else {
            None
        }
    }

    fn fork(&mut self, key: u64, alt: u32, model: Option<Model>) {
        let mut p = self.taken.clone();
        let mut k = self.taken_key.clone();
        p.push(alt);
        k.push(key);
        self.worklist.push((p, k, model));
        self.stats.forks += 1;
    }

    /// Branches on `sign(node) in mask`.
    pub fn branch(&mut self, node: u32, mask: u8) -> bool {
        if self.dag.is_undef(node) {
            return false; // NaN comparisons are false
        }
        let p = self.possible(node);
        if p & !mask == 0 {
            return true;
        }
        if p & mask == 0 {
            return false;
        }
        let key = hash(&(node, mask));
        if let Some(d) = self.decide(key) {
            let m = if d == 1 { mask } else { 7 & !mask };
            self.push_clause(vec![Atom { node, mask: m }]);
            return d == 1;
        }
        if self.out_of_time() {
            self.error = Some("time budget exhausted during exploration".into());
            drop_panic("budget");
        }
        let t = Atom { node, mask };
        let f = Atom { node, mask: 7 & !mask };
        let mut t_model: Option<Option<Model>> = None; // None = unknown yet; Some(None)= infeasible
        let mut f_model: Option<Option<Model>> = None;
        if let Some(m) = self.model.clone() {
            match self.model_sign(&m, node) {
                Some(s) if s & mask != 0 => t_model = Some(Some(m)),
                Some(_) => f_model = Some(Some(m)),
                None => {}
            }
        }
        let mut unk = false;
        let mut ask = |me: &mut Eng, a: Atom| -> Option<Option<Model>> {
            match me.feasible(&[vec![a]]) {
                Answer3::Sat(m) => Some(Some(m)),
                Answer3::Unsat => Some(None),
                Answer3::Unknown => {
                    unk = true;
                    None
                }
            }
        };
        if t_model.is_none() {
            t_model = ask(self, t);
        }
        if f_model.is_none() {
            f_model = ask(self, f);
        }
        if unk {
            self.stats.unknown_feasibility += 1;
        }
        let t_ok = !matches!(t_model, Some(None));
        let f_ok = !matches!(f_model, Some(None));
        match (t_ok, f_ok) {
            (true, true) => {
                self.fork(key, 0, f_model.flatten());
                self.taken.push(1);
                self.taken_key.push(key);
                self.model = t_model.flatten();
                self.push_clause(vec![t]);
                true
            }
            (true, false) => {
                // implied: remember it, no decision needed but keep the trace aligned
                self.taken.push(1);
                self.taken_key.push(key);
                if self.model.is_none() {
                    self.model = t_model.flatten();
                }
                self.push_clause(vec![t]);
                true
            }
            (false, true) => {
                self.taken.push(0);
                self.taken_key.push(key);
                if self.model.is_none() {
                    self.model = f_model.flatten();
                }
                self.push_clause(vec![f]);
                false
            }
            (false, false) => {
                self.stats.infeasible_paths += 1;
                drop_panic("infeasible")
            }
        }
    }

    /// Nondeterministic choice among n alternatives.
    pub fn choose(&mut self, name: &str, n: usize) -> usize {
        assert!(n > 0);
        let key = hash(&(name, n));
        let d = if let Some(d) = self.decide(key) {
            d
        } else {
            let m = self.model.clone();
            for alt in (1..n as u32).rev() {
                self.fork(key, alt, m.clone());
            }
            self.taken.push(0);
            self.taken_key.push(key);
            0
        };
        self.choices.push((name.to_string(), d as usize));
        d as usize
    }

    /// Adds an assumption (a disjunction of atoms).
    pub fn assume(&mut self, c: Vec<Atom>) {
        for a in &c {
            if self.possible(a.node) & !a.mask == 0 {
                return;
            }
        }
        if c.iter().all(|a| self.possible(a.node) & a.mask == 0) {
            self.stats.infeasible_paths += 1;
            drop_panic("infeasible");
        }
        if self.taken.len() < self.prefix.len() {
            // the remaining prefix was feasible together with this assumption
            self.push_clause(c);
            return;
        }
        let keep = match &self.model {
            Some(m) => self.clause_holds(m, &c),
            None => false,
        };
        if !keep {
            match self.feasible(&[c.clone()]) {
                Answer3::Sat(m) => self.model = Some(m),
                Answer3::Unsat => {
                    self.stats.infeasible_paths += 1;
                    drop_panic("infeasible");
                }
                Answer3::Unknown => {
                    self.stats.unknown_feasibility += 1;
                    self.model = None;
                }
            }
        }
        self.push_clause(c);
    }

    /// Called before every division by / sqrt of a symbolic value.
    pub fn defined(&mut self, node: u32, mask: u8, what: &'static str) {
        if self.dag.is_undef(node) {
            return;
        }
        let p = self.possible(node);
        if p & !mask == 0 {
            return;
        }
        match self.div_policy {
            DivPolicy::Assume => {
                self.stats.div_assumed += 1;
                self.assume(vec![Atom { node, mask }]);
            }
            DivPolicy::Prove => {
                let name = format!("{} is defined", what);
                self.check_atom(&name, Atom { node, mask }, None);
                self.assume(vec![Atom { node, mask }]);
            }
        }
    }

    // ---------------------------------------------------------------- queries

    fn render_rat(r: &Rat) -> String {
        let n = r.numer().abs();
        let s = if r.denom() == &num::BigInt::from(1) {
            format!("{}.0", n)
        } else {
            format!("(/ {}.0 {}.0)", n, r.denom())
        };
        if r.is_negative() {
            format!("(- {})", s)
        } else {
            s
        }
    }

    fn gen_name(&self, g: u32) -> String {
        match self.dag.nodes[g as usize] {
            Node::Var(v) => format!("v{}", v),
            _ => format!("g{}", g),
        }
    }

    fn render_poly(&self, p: &Poly) -> String {
        if p.is_zero() {
            return "0.0".into();
        }
        let mut terms = vec![];
        for (m, c) in &p.0 {
            let mut fs: Vec<String> = vec![];
            if m.0.is_empty() || !(c == &num::BigRational::from_integer(1.into())) {
                fs.push(Self::render_rat(c));
            }
            for (g, e) in &m.0 {
                let n = self.gen_name(*g);
                for _ in 0..*e {
                    fs.push(n.clone());
                }
            }
            terms.push(if fs.len() == 1 { fs.pop().unwrap() } else { format!("(* {})", fs.join(" ")) });
        }
        if terms.len() == 1 {
            terms.pop().unwrap()
        } else {
            format!("(+ {})", terms.join(" "))
        }
    }

    fn render_mask(p: &str, mask: u8) -> String {
        match mask {
            m if m == NEG => format!("(< {} 0.0)", p),
            m if m == ZERO => format!("(= {} 0.0)", p),
            m if m == POS => format!("(> {} 0.0)", p),
            m if m == NEG | ZERO => format!("(<= {} 0.0)", p),
            m if m == POS | ZERO => format!("(>= {} 0.0)", p),
            m if m == NEG | POS => format!("(not (= {} 0.0))", p),
            0 => "false".into(),
            _ => "true".into(),
        }
    }

    /// Renders an atom; `margin` shifts strict one-sided atoms away from zero (on the node value,
    /// only for polynomial nodes).
    fn render_atom(&mut self, a: Atom, margin: f64, gens: &mut BTreeSet<u32>, deg: &mut u32) -> String {
        match self.dag.sign_poly(a.node) {
            Err(m) => {
                if m & a.mask != 0 {
                    "true".into()
                } else {
                    "false".into()
                }
            }
            Ok((p, flipped)) => {
                let poly = self.dag.factors[p as usize].clone();
                poly.gens(gens);
                *deg = (*deg).max(poly.degree());
                self.stats.max_poly_terms = self.stats.max_poly_terms.max(poly.len());
                let mask = if flipped { flip(a.mask) } else { a.mask };
                let s = self.render_poly(&poly);
                if margin > 0.0 && mask & ZERO == 0 {
                    let m = Self::render_rat(&rat_from_f64(margin));
                    let n = Self::render_rat(&rat_from_f64(-margin));
                    match mask {
                        x if x == NEG => format!("(< {} {})", s, n),
                        x if x == POS => format!("(> {} {})", s, m),
                        _ => format!("(or (< {} {}) (> {} {}))", s, n, s, m),
                    }
                } else if margin > 0.0 && mask == (NEG | ZERO) {
                    format!("(< {} {})", s, Self::render_rat(&rat_from_f64(-margin)))
                } else if margin > 0.0 && mask == (POS | ZERO) {
                    format!("(> {} {})", s, Self::render_rat(&rat_from_f64(margin)))
                } else {
                    Self::render_mask(&s, mask)
                }
            }
        }
    }

    fn clause_gens(&mut self, c: &[Atom]) -> BTreeSet<u32> {
        let mut g = BTreeSet::new();
        for a in c {
            if let Ok((p, _)) = self.dag.sign_poly(a.node) {
                self.dag.factors[p as usize].gens(&mut g);
            }
        }
        g
    }

    /// Defining constraints of generators (transitively), appended to `asserts`.
    fn close_gens(&mut self, gens: &mut BTreeSet<u32>, deg: &mut u32) -> (Vec<String>, bool) {
        let mut asserts = vec![];
        let mut done: BTreeSet<u32> = Default::default();
        let mut has_int = false;
        loop {
            let todo: Vec<u32> = gens.iter().copied().filter(|g| !done.contains(g)).collect();
            if todo.is_empty() {
                break;
            }
            for g in todo {
                done.insert(g);
                let node = self.dag.nodes[g as usize].clone();
                let name = self.gen_name(g);
                let nfp = |me: &mut Eng, n: u32, gens: &mut BTreeSet<u32>, deg: &mut u32| -> (String, String) {
                    let nf = me.dag.nf(n);
                    nf.num.gens(gens);
                    *deg = (*deg).max(nf.num.degree() + if nf.den.is_empty() { 0 } else { 2 });
                    let num = me.render_poly(&nf.num);
                    let mut d = vec![];
                    for (f, e) in &nf.den {
                        let fp = me.dag.factors[*f as usize].clone();
                        fp.gens(gens);
                        let s = me.render_poly(&fp);
                        for _ in 0..*e {
                            d.push(s.clone());
                        }
                    }
                    let den = match d.len() {
                        0 => "1.0".to_string(),
                        1 => d.pop().unwrap(),
                        _ => format!("(* {})", d.join(" ")),
                    };
                    (num, den)
                };
                match node {
                    Node::Var(_) => {}
                    Node::Sqrt(a) => {
                        let (n, d) = nfp(self, a, gens, deg);
                        *deg = (*deg).max(2);
                        asserts.push(format!("(>= {} 0.0)", name));
                        if d == "1.0" {
                            asserts.push(format!("(= (* {0} {0}) {1})", name, n));
                        } else {
                            asserts.push(format!("(= (* {0} {0} {2}) {1})", name, n, d));
                        }
                    }
                    Node::Abs(a) => {
                        let (n, d) = nfp(self, a, gens, deg);
                        asserts.push(format!("(>= {} 0.0)", name));
                        asserts.push(format!("(or (= (* {0} {2}) {1}) (= (* {0} {2}) (- {1})))", name, n, d));
                    }
                    Node::Ite(c, mask, a, b) => {
                        let cs = self.render_atom(Atom { node: c, mask }, 0.0, gens, deg);
                        let (n1, d1) = nfp(self, a, gens, deg);
                        let (n2, d2) = nfp(self, b, gens, deg);
                        let eq = |n: &str, d: &str| {
                            if d == "1.0" {
                                format!("(= {} {})", name, n)
                            } else {
                                format!("(= (* {} {}) {})", name, d, n)
                            }
                        };
                        asserts.push(format!("(ite {} {} {})", cs, eq(&n1, &d1), eq(&n2, &d2)));
                    }
                    Node::Add(a, b) | Node::Sub(a, b) => {
                        let (n1, d1) = nfp(self, a, gens, deg);
                        let (n2, d2) = nfp(self, b, gens, deg);
                        *deg = (*deg).max(2);
                        let op = if matches!(node, Node::Add(..)) { "+" } else { "-" };
                        asserts.push(format!(
                            "(= (* {g} {d1} {d2}) ({op} (* {n1} {d2}) (* {n2} {d1})))",
                            g = name,
                            op = op,
                            n1 = n1,
                            n2 = n2,
                            d1 = d1,
                            d2 = d2
                        ));
                    }
                    Node::Mul(a, b) => {
                        let (n1, d1) = nfp(self, a, gens, deg);
                        let (n2, d2) = nfp(self, b, gens, deg);
                        *deg = (*deg).max(2);
                        asserts.push(format!("(= (* {} {} {}) (* {} {}))", name, d1, d2, n1, n2));
                    }
                    Node::Div(a, b) => {
                        let (n1, d1) = nfp(self, a, gens, deg);
                        let (n2, d2) = nfp(self, b, gens, deg);
                        *deg = (*deg).max(2);
                        asserts.push(format!("(= (* {} {} {}) (* {} {}))", name, d1, n2, n1, d2));
                    }
                    Node::Fun(f, a) => match f {
                        Fun::Exp => asserts.push(format!("(> {} 0.0)", name)),
                        Fun::Sin | Fun::Cos | Fun::Tanh => {
                            asserts.push(format!("(<= (- 1.0) {})", name));
                            asserts.push(format!("(<= {} 1.0)", name));
                            if f != Fun::Tanh {
                                let other = if f == Fun::Sin { Fun::Cos } else { Fun::Sin };
                                let o = self.dag.fun(other, a);
                                if gens.contains(&o) {
                                    *deg = (*deg).max(2);
                                    let on = self.gen_name(o);
                                    asserts.push(format!("(= (+ (* {0} {0}) (* {1} {1})) 1.0)", name, on));
                                }
                            }
                        }
                        Fun::Atan => {
                            asserts.push(format!("(< (- 1.5707963268) {} 1.5707963268)", name));
                            let pos = self.render_atom(Atom { node: a, mask: POS }, 0.0, gens, deg);
                            let neg = self.render_atom(Atom { node: a, mask: NEG }, 0.0, gens, deg);
                            asserts.push(format!("(= {} (> {} 0.0))", pos, name));
                            asserts.push(format!("(= {} (< {} 0.0))", neg, name));
                        }
                        Fun::Floor => {
                            has_int = true;
                            let (n, d) = nfp(self, a, gens, deg);
                            let q = if d == "1.0" { n } else { format!("(/ {} {})", n, d) };
                            asserts.push(format!("(= {} (to_real (to_int {})))", name, q));
                        }
                        _ => {}
                    },
                    Node::Atan2(..) => {
                        asserts.push(format!("(<= (- 3.1415926536) {} 3.1415926536)", name));
                    }
                    _ => {}
                }
            }
        }
        (asserts, has_int)
    }

    /// Builds the query `path /\ extra` restricted to the cone of influence of `extra`.
    fn build(&mut self, extra: &[Vec<Atom>], raw: &[String], raw_gens: &BTreeSet<u32>, path_margin: f64, extra_margin: f64, whole: bool) -> (String, String, Vec<String>, Vec<u32>) {
        let mut gens: BTreeSet<u32> = raw_gens.clone();
        let mut deg = 0;
        let mut asserts: Vec<String> = vec![];
        for c in extra {
            let parts: Vec<String> =
                c.iter().map(|a| self.render_atom(*a, extra_margin, &mut gens, &mut deg)).collect();
            asserts.push(if parts.len() == 1 { parts[0].clone() } else { format!("(or {})", parts.join(" ")) });
        }
        if !raw.is_empty() {
            deg = deg.max(2);
        }
        asserts.extend(raw.iter().cloned());
        // cone of influence
        let clauses: Vec<Vec<Atom>> = self.path.clone();
        let mut cg: Vec<BTreeSet<u32>> = vec![];
        for c in &clauses {
            cg.push(self.clause_gens(c));
        }
        let mut used = vec![false; clauses.len()];
        let mut defs;
        let mut has_int;
        loop {
            let (d, hi) = self.close_gens(&mut gens, &mut deg);
            defs = d;
            has_int = hi;
            let mut changed = false;
            for i in 0..clauses.len() {
                if used[i] {
                    continue;
                }
                if whole || cg[i].iter().any(|g| gens.contains(g)) || cg[i].is_empty() {
                    used[i] = true;
                    changed = true;
                    let parts: Vec<String> = clauses[i]
                        .iter()
                        .map(|a| self.render_atom(*a, path_margin, &mut gens, &mut deg))
                        .collect();
                    asserts.push(if parts.len() == 1 {
                        parts[0].clone()
                    } else {
                        format!("(or {})", parts.join(" "))
                    });
                }
            }
            if !changed {
                break;
            }
        }
        let mut body = String::new();
        let mut names = vec![];
        let mut ids = vec![];
        for g in &gens {
            let n = self.gen_name(*g);
            let _ = writeln!(body, "(declare-fun {} () Real)", n);
            if let Node::Var(v) = self.dag.nodes[*g as usize] {
                let vi = &self.vars[v as usize];
                if let Some(lo) = vi.lo {
                    let _ = writeln!(body, "(assert (>= {} {}))", n, Self::render_rat(&rat_from_f64(lo)));
                }
                if let Some(hi) = vi.hi {
                    let _ = writeln!(body, "(assert (<= {} {}))", n, Self::render_rat(&rat_from_f64(hi)));
                }
                names.push(n);
                ids.push(v);
            }
        }
        for d in defs {
            let _ = writeln!(body, "(assert {})", d);
        }
        for a in asserts {
            if a != "true" {
                let _ = writeln!(body, "(assert {})", a);
            }
        }
        let logic = if has_int {
            "ALL"
        } else if deg > 1 {
            "QF_NRA"
        } else {
            "QF_LRA"
        };
        (logic.to_string(), body, names, ids)
    }

    fn ask(&mut self, extra: &[Vec<Atom>], raw: &[String], raw_gens: &BTreeSet<u32>, pm: f64, em: f64, whole: bool, fast: u64, full: u64) -> Answer3x {
        let (logic, body, names, ids) = self.build(extra, raw, raw_gens, pm, em, whole);
        match self.solver.query(&logic, &body, &names, fast, full) {
            Answer::Unsat => Answer3x::Unsat,
            Answer::Unknown(_) => Answer3x::Unknown,
            Answer::Sat(vals) => {
                let mut m: Model = self.model.clone().unwrap_or_default();
                let mut ex = BTreeMap::new();
                for (i, (_, v, t)) in vals.iter().enumerate() {
                    if i < ids.len() {
                        m.insert(ids[i], *v);
                        ex.insert(self.vars[ids[i] as usize].name.clone(), t.clone());
                    }
                }
                Answer3x::Sat(m, ex)
            }
        }
    }

    fn feasible(&mut self, extra: &[Vec<Atom>]) -> Answer3 {
        let (f, g) = (self.fast_ms.min(self.feas_ms), self.feas_ms);
        // if no model of the rest of the path is known, ask for the whole path
        let whole = self.model.is_none();
        match self.ask(extra, &[], &BTreeSet::new(), 0.0, 0.0, whole, f, g) {
            Answer3x::Sat(m, _) => Answer3::Sat(m),
            Answer3x::Unsat => Answer3::Unsat,
            Answer3x::Unknown => Answer3::Unknown,
        }
    }

    fn path_key(&self) -> u64 {
        let mut p: Vec<Vec<Atom>> = self.path.clone();
        p.sort();
        p.dedup();
        hash(&p)
    }

    fn mk_candidate(&self, what: &str, detail: &str, m: &Model, exact: BTreeMap<String, String>) -> Candidate {
        let mut values = BTreeMap::new();
        for (i, v) in self.vars.iter().enumerate() {
            values.insert(v.name.clone(), self.model_val(m, i as u32));
        }
        Candidate { what: what.into(), detail: detail.into(), values, exact, choices: self.choices.clone() }
    }

    fn note(&mut self, what: &str) {
        *self.stats.by_name.entry(what.to_string()).or_insert(0) += 1;
        self.stats.checks += 1;
    }

    /// Asserts `sign(a.node) in a.mask` on the current path. With `tol`, a value within `tol` of
    /// satisfying it is accepted as well (|node| <= tol for equalities, one-sided otherwise).
    /// Returns false if the assertion was refuted (a candidate has been queued).
    pub fn check_atom(&mut self, what: &str, a: Atom, tol: Option<f64>) -> bool {
        self.note(what);
        if self.dag.is_undef(a.node) {
            self.fail_here(what, "value undefined (division by zero or root of a negative number)");
            return false;
        }
        let mut p = self.possible(a.node);
        let (mut a, given) = (a, a.node);
        if p & !a.mask != 0 {
            let r = self.resolve(a.node);
            if r != a.node && !self.dag.is_undef(r) {
                a.node = r;
                p = self.possible(r);
            }
        }
        if p & !a.mask == 0 {
            self.stats.checks_by_normal_form += 1;
            if let Some((x, y)) = self.pair {
                let constant = self.dag.as_const(x).is_some() && self.dag.as_const(y).is_some();
                // terms which both sides share are given to the solver up to a cap: they are trivial
                if a.node == given && !constant && (x != y || self.confirm.len() < 480) && self.unconditional(a.node) & !a.mask == 0 {
                    self.confirm.insert((x, y, a.mask));
                }
            }
            return true;
        }
        let key = (self.path_key(), a.node, a.mask);
        if !self.done_checks.insert(key) {
            return true;
        }
        self.stats.checks_distinct += 1;
        let neg = 7 & !a.mask;
        if let Some(t) = tol {
            return self.check_tol(what, a, t, &[t]);
        }
        // exact query
        let r = self.ask(
            &[vec![Atom { node: a.node, mask: neg }]],
            &[],
            &BTreeSet::new(),
            0.0,
            0.0,
            false,
            self.fast_ms,
            self.full_ms,
        );
        match r {
            Answer3x::Unsat => {
                self.stats.checks_by_solver += 1;
                if self.stats.samples.len() < 3 {
                    let s = format!("{}: unsat in {} under {} path constraints", what, "QF_NRA/QF_LRA", self.path.len());
                    self.stats.samples.push(s);
                }
                true
            }
            Answer3x::Sat(..) => self.check_tol(what, a, 1e-7, &[1e-2, 1e-4, 1e-7]),
            Answer3x::Unknown => {
                // try a counterexample with a margin before giving up
                self.check_tol_or_undecided(what, a)
            }
        }
    }

    fn check_tol_or_undecided(&mut self, what: &str, a: Atom) -> bool {
        let n0 = self.candidates.len();
        let u0 = self.stats.undecided.len();
        let ok = self.check_tol(what, a, 1e-7, &[1e-2]);
        if self.candidates.len() > n0 {
            return false;
        }
        if ok || self.stats.undecided.len() > u0 {
            self.stats.undecided.truncate(u0);
        }
        self.stats.undecided.push(format!("{} (path of {} constraints)", what, self.path.len()));
        true
    }

    /// Looks for a violation by more than a margin (ladder, large first); passes if there is none
    /// above the last margin.
    fn check_tol(&mut self, what: &str, a: Atom, _tol: f64, ladder: &[f64]) -> bool {
        let neg = 7 & !a.mask;
        let nf = self.dag.nf(a.node);
        let mut last_unknown = false;
        if nf.den.is_empty() && neg & ZERO == 0 && self.monomial_relaxation(&nf.num, neg, ladder[ladder.len() - 1]) {
            self.stats.checks_by_tolerance += 1;
            return true;
        }
        for &m in ladder {
            // num - m*den etc, as raw text: value v with v*den = num
            let mut gens = BTreeSet::new();
            nf.num.gens(&mut gens);
            let num = self.render_poly(&nf.num);
            let mut den_parts = vec![];
            for (f, e) in &nf.den {
                let fp = self.dag.factors[*f as usize].clone();
                fp.gens(&mut gens);
                for _ in 0..*e {
                    den_parts.push(self.render_poly(&fp));
                }
            }
            let mm = Self::render_rat(&rat_from_f64(m));
            let nm = Self::render_rat(&rat_from_f64(-m));
            let linear = nf.den.is_empty() && nf.num.degree() <= 1;
            let (v, mut raw) = if den_parts.is_empty() {
                (num, vec![])
            } else {
                let den = if den_parts.len() == 1 { den_parts[0].clone() } else { format!("(* {})", den_parts.join(" ")) };
                ("q!".to_string(), vec![format!("(= (* q! {}) {})", den, num)])
            };
            let mut alts = vec![];
            if neg & POS != 0 {
                alts.push(format!("(> {} {})", v, mm));
            }
            if neg & NEG != 0 {
                alts.push(format!("(< {} {})", v, nm));
            }
            if neg & ZERO != 0 && m == ladder[ladder.len() - 1] {
                // a strict relation was asserted: equality violates it
                alts.push(format!("(= {} 0.0)", v));
            }
            raw.push(format!("(or {} false)", alts.join(" ")));
            let _ = linear;
            let r = self.ask_raw(&raw, &gens, if v == "q!" { Some("q!") } else { None }, 0.0, linear);
            match r {
                Answer3x::Sat(model, ex) => {
                    let c = self.mk_candidate(what, &format!("violated by more than {}", m), &model, ex);
                    self.candidates.push(c);
                    return false;
                }
                Answer3x::Unsat => last_unknown = false,
                Answer3x::Unknown => last_unknown = true,
            }
        }
        if last_unknown {
            self.stats.undecided.push(format!("{} (margin query)", what));
        } else {
            self.stats.checks_by_tolerance += 1;
        }
        true
    }

    /// Sound linear relaxation: every monomial of input variables becomes a fresh variable within the
    /// interval product of the inputs' ranges. True if the solver refutes `p > m` / `p < -m` there.
    fn monomial_relaxation(&mut self, p: &Poly, neg: u8, m: f64) -> bool {
        let mut decl = String::new();
        let mut terms = vec![];
        if p.degree() < 2 {
            return false;
        }
        for (i, (mono, c)) in p.0.iter().enumerate() {
            if mono.0.is_empty() {
                terms.push(Self::render_rat(c));
                continue;
            }
            let mut b = Rat::one();
            for (g, e) in &mono.0 {
                let Node::Var(v) = self.dag.nodes[*g as usize] else { return false };
                let (Some(lo), Some(hi)) = (self.vars[v as usize].lo, self.vars[v as usize].hi) else { return false };
                let x = rat_from_f64(lo.abs().max(hi.abs()));
                for _ in 0..*e {
                    b *= &x;
                }
            }
            decl += &format!(
                "(declare-fun m{i} () Real)\n(assert (and (<= {} m{i}) (<= m{i} {})))\n",
                Self::render_rat(&-b.clone()),
                Self::render_rat(&b)
            );
            terms.push(format!("(* {} m{i})", Self::render_rat(c)));
        }
        let mut alts = vec![];
        if neg & POS != 0 {
            alts.push(format!("(> p! {})", Self::render_rat(&rat_from_f64(m))));
        }
        if neg & NEG != 0 {
            alts.push(format!("(< p! {})", Self::render_rat(&rat_from_f64(-m))));
        }
        let body = format!(
            "{decl}(declare-fun p! () Real)\n(assert (= p! (+ {} 0.0)))\n(assert (or {} false))\n",
            terms.join(" "),
            alts.join(" ")
        );
        matches!(self.solver.query("QF_LRA", &body, &[], self.fast_ms, self.fast_ms), Answer::Unsat)
    }

    fn ask_raw(&mut self, raw: &[String], gens: &BTreeSet<u32>, aux: Option<&str>, pm: f64, linear: bool) -> Answer3x {
        let (logic, mut body, names, ids) = self.build(&[], raw, gens, pm, 0.0, true);
        if let Some(a) = aux {
            body = format!("(declare-fun {} () Real)\n{}", a, body);
        }
        let logic = if linear && logic == "QF_NRA" && self.path.is_empty() { "QF_LRA".to_string() } else { logic };
        match self.solver.query(&logic, &body, &names, self.fast_ms, self.full_ms) {
            Answer::Unsat => Answer3x::Unsat,
            Answer::Unknown(_) => Answer3x::Unknown,
            Answer::Sat(vals) => {
                let mut m: Model = self.model.clone().unwrap_or_default();
                let mut ex = BTreeMap::new();
                for (i, (_, v, t)) in vals.iter().enumerate() {
                    m.insert(ids[i], *v);
                    ex.insert(self.vars[ids[i] as usize].name.clone(), t.clone());
                }
                Answer3x::Sat(m, ex)
            }
        }
    }

    /// The current path itself is a violation (failed boolean check, panic, undefined value).
    pub fn fail_here(&mut self, what: &str, detail: &str) {
        let key = (self.path_key(), hash(&what) as u32, 255);
        if !self.done_checks.insert(key) {
            return;
        }
        for m in [1e-2, 1e-4, 0.0] {
            match self.ask(&[], &[], &BTreeSet::new(), m, 0.0, true, self.fast_ms, self.full_ms) {
                Answer3x::Sat(model, ex) => {
                    let c = self.mk_candidate(what, detail, &model, ex);
                    self.candidates.push(c);
                    if m == 0.0 || self.path.iter().all(|c| c.iter().all(|a| a.mask != ZERO)) {
                        return;
                    }
                    return;
                }
                Answer3x::Unsat => {
                    if m == 0.0 {
                        // the path was only assumed feasible (unknown): nothing violated
                        return;
                    }
                }
                Answer3x::Unknown => {
                    if m == 0.0 {
                        self.stats.undecided.push(format!("{}: path feasibility unknown ({})", what, detail));
                    }
                }
            }
        }
    }

    /// A model of the complete current path, for native validation.
    pub fn path_model(&mut self) -> Option<Model> {
        if let Some(m) = self.model.clone() {
            let cl = self.path.clone();
            if cl.iter().all(|c| self.clause_holds(&m, c)) {
                return Some(m);
            }
        }
        let key = self.path_key();
        if self.sat_cache.contains_key(&key) {
            return None;
        }
        self.sat_cache.insert(key, true);
        match self.ask(&[], &[], &BTreeSet::new(), 1e-3, 0.0, true, 1000, 1000) {
            Answer3x::Sat(m, _) => Some(m),
            _ => match self.ask(&[], &[], &BTreeSet::new(), 0.0, 0.0, true, 1000, 1000) {
                Answer3x::Sat(m, _) => Some(m),
                _ => None,
            },
        }
    }

    pub fn values_of(&self, m: &Model) -> BTreeMap<String, f64> {
        let mut values = BTreeMap::new();
        for (i, v) in self.vars.iter().enumerate() {
            values.insert(v.name.clone(), self.model_val(m, i as u32));
        }
        values
    }

    /// Tries to move the values of a candidate to a coarse dyadic grid while staying on the path
    /// (used when the direct replay did not reproduce because of rounding).
    pub fn possible_mask(&mut self, node: u32) -> u8 {
        self.possible(node)
    }
}

pub enum Answer3 {
    Sat(Model),
    Unsat,
    Unknown,
}
pub enum Answer3x {
    Sat(Model, BTreeMap<String, String>),
    Unsat,
    Unknown,
}

fn drop_panic(why: &'static str) -> ! {
    std::panic::panic_any(PathStop(why))
}

pub fn zero_rat() -> Rat {
    Rat::zero()
}
