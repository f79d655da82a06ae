//! Hash-consed expression DAG recorded while the real (generic) code runs on symbolic scalars,
//! and its canonical (rational-function) normal form.
use super::poly::{Mono, Poly, Rat};
use num::{BigInt, BigRational, One, Signed, ToPrimitive, Zero};
use rustc_hash::FxHashMap;
use std::collections::BTreeSet;
use std::sync::Arc;

pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Fun {
    Ln,
    Exp,
    Sin,
    Cos,
    Atan,
    Acos,
    Asin,
    Tan,
    Tanh,
    Floor,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(Rat),
    Var(u32),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Div(u32, u32),
    Sqrt(u32),
    Abs(u32),
    /// if sign(cond) in mask then a else b
    Ite(u32, u8, u32, u32),
    Fun(Fun, u32),
    Atan2(u32, u32),
    Pow(u32, u32),
    Undef,
}

/// `sign(node) in mask`
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Atom {
    pub node: u32,
    pub mask: u8,
}

#[derive(Clone, Debug)]
pub struct Nf {
    pub num: Poly,
    /// Product of interned factor polynomials (each primitive, non-constant).
    pub den: Vec<(u32, u32)>,
}

pub struct Dag {
    pub nodes: Vec<Node>,
    cons: FxHashMap<Node, u32>,
    nf: FxHashMap<u32, Arc<Nf>>,
    pub factors: Vec<Poly>,
    factor_ids: FxHashMap<Poly, u32>,
    /// Generators which stand for nodes whose expansion was over budget.
    pub opaque: BTreeSet<u32>,
    pub max_terms: usize,
    pub max_work: usize,
    /// Numeric fingerprints of nodes, and the function applications seen so far.
    fp: FxHashMap<u32, f64>,
    apps: Vec<(Fun, u32, f64)>,
    /// Pairs of arguments identified because their normal forms agree (given to the solver for confirmation).
    pub unified: Vec<(u32, u32)>,
}

pub fn rat_from_f64(x: f64) -> Rat {
    BigRational::from_float(x).expect("finite")
}

/// Idealisation of literals: a double which is the closest double to p/q with q <= 60 is read as p/q.
pub fn ideal_f64(x: f64) -> Rat {
    let e = rat_from_f64(x);
    if x == 0.0 || x.abs() > 1e6 || x.abs() < 1e-4 {
        // decimal powers such as 1e-12 are kept as exact doubles
        return e;
    }
    if e.denom() <= &BigInt::from(1u64 << 20) {
        return e;
    }
    for q in 2..=60i64 {
        let p = (x * q as f64).round();
        if p.abs() > 0.0 && p / q as f64 == x {
            return Rat::new(BigInt::from(p as i64), BigInt::from(q));
        }
    }
    for q in [100i64, 1000, 10000] {
        let p = (x * q as f64).round();
        if p.abs() > 0.0 && p.abs() < 1e9 && p / q as f64 == x {
            return Rat::new(BigInt::from(p as i64), BigInt::from(q));
        }
    }
    e
}

pub fn rat_to_f64(r: &Rat) -> f64 {
    if let (Some(n), Some(d)) = (r.numer().to_f64(), r.denom().to_f64()) {
        if n.is_finite() && d.is_finite() && d != 0.0 && n.abs() < 9e15 && d < 9e15 {
            return n / d;
        }
    }
    r.to_f64().unwrap_or_else(|| {
        // scale down
        let nb = r.numer().bits() as i64;
        let db = r.denom().bits() as i64;
        let shift = (nb.max(db) - 900).max(0) as u64;
        let n: BigInt = r.numer() >> shift;
        let d: BigInt = r.denom() >> shift;
        n.to_f64().unwrap_or(f64::NAN) / d.to_f64().unwrap_or(f64::NAN)
    })
}

pub fn rat_sqrt(r: &Rat) -> Option<Rat> {
    if r.is_negative() {
        return None;
    }
    let n = r.numer().sqrt();
    let d = r.denom().sqrt();
    if &(&n * &n) == r.numer() && &(&d * &d) == r.denom() {
        Some(Rat::new(n, d))
    } else {
        None
    }
}

impl Dag {
    pub fn new() -> Self {
        Dag {
            nodes: vec![],
            cons: Default::default(),
            nf: Default::default(),
            factors: vec![],
            factor_ids: Default::default(),
            opaque: Default::default(),
            max_terms: 1500,
            max_work: 150_000,
            fp: Default::default(),
            apps: vec![],
            unified: vec![],
        }
    }
    pub fn mk(&mut self, n: Node) -> u32 {
        if let Some(&i) = self.cons.get(&n) {
            return i;
        }
        let i = self.nodes.len() as u32;
        self.nodes.push(n.clone());
        self.cons.insert(n, i);
        i
    }
    pub fn konst(&mut self, r: Rat) -> u32 {
        self.mk(Node::Const(r))
    }
    pub fn as_const(&self, i: u32) -> Option<&Rat> {
        match &self.nodes[i as usize] {
            Node::Const(r) => Some(r),
            _ => None,
        }
    }
    pub fn is_undef(&self, i: u32) -> bool {
        matches!(self.nodes[i as usize], Node::Undef)
    }
    fn undef2(&mut self, a: u32, b: u32) -> Option<u32> {
        if self.is_undef(a) || self.is_undef(b) {
            Some(self.mk(Node::Undef))
        } else {
            None
        }
    }
    pub fn add(&mut self, a: u32, b: u32) -> u32 {
        if let Some(u) = self.undef2(a, b) {
            return u;
        }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => {
                let r = x + y;
                return self.konst(r);
            }
            (Some(x), _) if x.is_zero() => return b,
            (_, Some(y)) if y.is_zero() => return a,
            _ => {}
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Node::Add(a, b))
    }
    pub fn sub(&mut self, a: u32, b: u32) -> u32 {
        if let Some(u) = self.undef2(a, b) {
            return u;
        }
        if a == b {
            return self.konst(Rat::zero());
        }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => {
                let r = x - y;
                return self.konst(r);
            }
            (_, Some(y)) if y.is_zero() => return a,
            _ => {}
        }
        self.mk(Node::Sub(a, b))
    }
    pub fn mul(&mut self, a: u32, b: u32) -> u32 {
        if let Some(u) = self.undef2(a, b) {
            return u;
        }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => {
                let r = x * y;
                return self.konst(r);
            }
            (Some(x), _) if x.is_zero() => return a,
            (_, Some(y)) if y.is_zero() => return b,
            (Some(x), _) if x.is_one() => return b,
            (_, Some(y)) if y.is_one() => return a,
            _ => {}
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Node::Mul(a, b))
    }
    pub fn neg(&mut self, a: u32) -> u32 {
        let z = self.konst(Rat::zero());
        self.sub(z, a)
    }
    /// Caller has dealt with b == 0.
    pub fn div(&mut self, a: u32, b: u32) -> u32 {
        if let Some(u) = self.undef2(a, b) {
            return u;
        }
        if let Some(y) = self.as_const(b) {
            if y.is_zero() {
                return self.mk(Node::Undef);
            }
            let inv = Rat::one() / y;
            let inv = self.konst(inv);
            return self.mul(a, inv);
        }
        if let Some(x) = self.as_const(a) {
            if x.is_zero() {
                return a;
            }
        }
        if a == b {
            return self.konst(Rat::one());
        }
        self.mk(Node::Div(a, b))
    }
    pub fn sqrt(&mut self, a: u32) -> u32 {
        if self.is_undef(a) {
            return a;
        }
        if let Some(x) = self.as_const(a) {
            if x.is_negative() {
                return self.mk(Node::Undef);
            }
            if let Some(s) = rat_sqrt(x) {
                return self.konst(s);
            }
        }
        self.mk(Node::Sqrt(a))
    }
    pub fn abs(&mut self, a: u32) -> u32 {
        if self.is_undef(a) {
            return a;
        }
        if let Some(x) = self.as_const(a) {
            let r = x.abs();
            return self.konst(r);
        }
        if matches!(self.nodes[a as usize], Node::Sqrt(_) | Node::Abs(_)) {
            return a;
        }
        self.mk(Node::Abs(a))
    }
    pub fn ite(&mut self, c: u32, mask: u8, a: u32, b: u32) -> u32 {
        if a == b {
            return a;
        }
        if self.is_undef(c) {
            return c;
        }
        if let Some(x) = self.as_const(c) {
            let s = sign_mask(x);
            return if s & mask != 0 { a } else { b };
        }
        self.mk(Node::Ite(c, mask, a, b))
    }
    /// An earlier argument of `f` (or constant) with the same normal form, so that equal arguments share one generator.
    fn representative(&mut self, f: Fun, a: u32) -> u32 {
        if self.as_const(a).is_some() || self.cons.contains_key(&Node::Fun(f, a)) {
            return a;
        }
        let mut memo = std::mem::take(&mut self.fp);
        let v = self.eval(a, &|v| ((v as f64 + 1.0) * 0.618033988749895).fract() + 0.25, &mut memo);
        self.fp = memo;
        let near = |x: f64| (x - v).abs() <= 1e-9 * (1.0 + v.abs());
        let mut found = None;
        if near(0.0) || near(1.0) {
            let n = self.nf(a);
            if let (Some(c), true) = (n.num.as_const(), n.den.is_empty()) {
                found = Some(self.konst(c));
            }
        }
        if found.is_none() {
            let same: Vec<u32> = self.apps.iter().filter(|(g, _, x)| *g == f && near(*x)).map(|t| t.1).collect();
            for b in same {
                let d = self.sub(a, b);
                if self.nf(d).num.is_zero() {
                    found = Some(b);
                    break;
                }
            }
        }
        match found {
            Some(b) => {
                self.unified.push((a, b));
                b
            }
            None => {
                if v.is_finite() {
                    self.apps.push((f, a, v));
                }
                a
            }
        }
    }
    pub fn fun(&mut self, f: Fun, a: u32) -> u32 {
        if self.is_undef(a) {
            return a;
        }
        let a = self.representative(f, a);
        if let Some(x) = self.as_const(a) {
            let x = x.clone();
            match f {
                Fun::Ln if x.is_one() => return self.konst(Rat::zero()),
                Fun::Exp if x.is_zero() => return self.konst(Rat::one()),
                Fun::Sin | Fun::Atan | Fun::Asin | Fun::Tan | Fun::Tanh if x.is_zero() => {
                    return self.konst(Rat::zero())
                }
                Fun::Cos if x.is_zero() => return self.konst(Rat::one()),
                Fun::Floor => return self.konst(x.floor()),
                _ => {}
            }
        }
        self.mk(Node::Fun(f, a))
    }

    pub fn factor(&mut self, p: &Poly) -> u32 {
        if let Some(&i) = self.factor_ids.get(p) {
            return i;
        }
        let i = self.factors.len() as u32;
        self.factors.push(p.clone());
        self.factor_ids.insert(p.clone(), i);
        i
    }

    fn opaque_nf(&mut self, i: u32) -> Arc<Nf> {
        self.opaque.insert(i);
        Arc::new(Nf { num: Poly::gen(i), den: vec![] })
    }

    fn pmul(&mut self, a: &Poly, b: &Poly) -> Option<Poly> {
        if a.len() * b.len() > self.max_work {
            return None;
        }
        let p = a.mul(b);
        let p = self.reduce(p)?;
        if p.len() > self.max_terms {
            return None;
        }
        Some(p)
    }

    /// Rewrites squares of square-root generators, s^2 -> radicand, |a|^2 -> a^2.
    fn reduce(&mut self, p: Poly) -> Option<Poly> {
        let mut cur = p;
        for _ in 0..64 {
            let mut hit = None;
            'outer: for m in cur.0.keys() {
                for (g, e) in &m.0 {
                    if *e >= 2 {
                        match self.nodes[*g as usize] {
                            Node::Sqrt(a) => {
                                let nf = self.nf(a);
                                if nf.den.is_empty() {
                                    hit = Some((*g, nf.num.clone()));
                                    break 'outer;
                                }
                            }
                            Node::Abs(a) => {
                                let nf = self.nf(a);
                                if nf.den.is_empty() {
                                    let sq = nf.num.mul(&nf.num);
                                    hit = Some((*g, sq));
                                    break 'outer;
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
            let Some((g, rad)) = hit else { return Some(cur) };
            let mut out = Poly::zero();
            for (m, c) in &cur.0 {
                let e = m.0.iter().find(|x| x.0 == g).map(|x| x.1).unwrap_or(0);
                if e < 2 {
                    out.add_assign_scaled(
                        &Poly(std::iter::once((m.clone(), Rat::one())).collect()),
                        c,
                    );
                } else {
                    let mut rest: Vec<(u32, u32)> = m.0.iter().copied().filter(|x| x.0 != g).collect();
                    if e % 2 == 1 {
                        rest.push((g, 1));
                        rest.sort();
                    }
                    let mut t = Poly(std::iter::once((Mono(rest), c.clone())).collect());
                    for _ in 0..e / 2 {
                        if t.len() * rad.len() > self.max_work {
                            return None;
                        }
                        t = t.mul(&rad);
                    }
                    out.add_assign_scaled(&t, &Rat::one());
                }
                if out.len() > self.max_terms * 2 {
                    return None;
                }
            }
            cur = out;
        }
        Some(cur)
    }

    fn den_poly(&mut self, den: &[(u32, u32)]) -> Option<Poly> {
        let mut p = Poly::one();
        for &(f, e) in den {
            let fp = self.factors[f as usize].clone();
            for _ in 0..e {
                p = self.pmul(&p, &fp)?;
            }
        }
        Some(p)
    }

    fn nf_add(&mut self, a: &Nf, b: &Nf, sgn: i32) -> Option<Nf> {
        let s = Rat::from_integer(BigInt::from(sgn));
        if a.den == b.den {
            let mut num = a.num.clone();
            num.add_assign_scaled(&b.num, &s);
            if num.len() > self.max_terms {
                return None;
            }
            return Some(self.cancel(num, a.den.clone()));
        }
        // lcm of the factored denominators
        let mut l: std::collections::BTreeMap<u32, u32> = Default::default();
        for &(f, e) in a.den.iter().chain(b.den.iter()) {
            let x = l.entry(f).or_insert(0);
            *x = (*x).max(e);
        }
        let missing = |d: &[(u32, u32)]| -> Vec<(u32, u32)> {
            l.iter()
                .filter_map(|(&f, &e)| {
                    let have = d.iter().find(|x| x.0 == f).map(|x| x.1).unwrap_or(0);
                    if e > have {
                        Some((f, e - have))
                    } else {
                        None
                    }
                })
                .collect()
        };
        let ma = missing(&a.den);
        let mb = missing(&b.den);
        let pa = self.den_poly(&ma)?;
        let pb = self.den_poly(&mb)?;
        let mut num = self.pmul(&a.num, &pa)?;
        let nb = self.pmul(&b.num, &pb)?;
        num.add_assign_scaled(&nb, &s);
        if num.len() > self.max_terms {
            return None;
        }
        let den = l.into_iter().collect();
        Some(self.cancel(num, den))
    }

    fn cancel(&mut self, mut num: Poly, mut den: Vec<(u32, u32)>) -> Nf {
        if num.is_zero() {
            return Nf { num, den: vec![] };
        }
        for k in 0..den.len() {
            while den[k].1 > 0 {
                let f = self.factors[den[k].0 as usize].clone();
                if f.len() > num.len() || f.len() * num.len() > 4000 {
                    break;
                }
                match num.div_exact(&f) {
                    Some(q) => {
                        num = q;
                        den[k].1 -= 1;
                    }
                    None => break,
                }
            }
        }
        den.retain(|x| x.1 > 0);
        Nf { num, den }
    }

    fn nf_mul(&mut self, a: &Nf, b: &Nf) -> Option<Nf> {
        // factors of one numerator which are denominators of the other cancel before the product is expanded
        let x = if b.den.is_empty() { None } else { Some(self.cancel(a.num.clone(), b.den.clone())) };
        let y = if a.den.is_empty() { None } else { Some(self.cancel(b.num.clone(), a.den.clone())) };
        let (xn, bd) = x.as_ref().map_or((&a.num, &b.den), |x| (&x.num, &x.den));
        let (yn, ad) = y.as_ref().map_or((&b.num, &a.den), |y| (&y.num, &y.den));
        let num = self.pmul(xn, yn)?;
        let mut l: std::collections::BTreeMap<u32, u32> = Default::default();
        for &(f, e) in ad.iter().chain(bd.iter()) {
            *l.entry(f).or_insert(0) += e;
        }
        let den = l.into_iter().collect();
        Some(self.cancel(num, den))
    }

    /// Rational-function normal form of a node over its generators.
    pub fn nf(&mut self, i: u32) -> Arc<Nf> {
        if let Some(x) = self.nf.get(&i) {
            return x.clone();
        }
        // iterative post-order to avoid deep recursion
        let mut stack = vec![(i, false)];
        while let Some((n, done)) = stack.pop() {
            if self.nf.contains_key(&n) {
                continue;
            }
            let node = self.nodes[n as usize].clone();
            let kids: Vec<u32> = match &node {
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) => vec![*a, *b],
                Node::Sqrt(a) | Node::Abs(a) => vec![*a],
                _ => vec![],
            };
            if !done && kids.iter().any(|k| !self.nf.contains_key(k)) {
                stack.push((n, true));
                for k in kids {
                    stack.push((k, false));
                }
                continue;
            }
            let r = match &node {
                Node::Const(c) => Arc::new(Nf { num: Poly::constant(c.clone()), den: vec![] }),
                Node::Add(a, b) | Node::Sub(a, b) => {
                    let sgn = if matches!(node, Node::Add(..)) { 1 } else { -1 };
                    let (x, y) = (self.nf[a].clone(), self.nf[b].clone());
                    match self.nf_add(&x, &y, sgn) {
                        Some(r) => Arc::new(r),
                        None => self.opaque_nf(n),
                    }
                }
                Node::Mul(a, b) => {
                    let (x, y) = (self.nf[a].clone(), self.nf[b].clone());
                    match self.nf_mul(&x, &y) {
                        Some(r) => Arc::new(r),
                        None => self.opaque_nf(n),
                    }
                }
                Node::Div(a, b) => {
                    let (x, y) = (self.nf[a].clone(), self.nf[b].clone());
                    match self.nf_div(&x, &y) {
                        Some(r) => Arc::new(r),
                        None => self.opaque_nf(n),
                    }
                }
                Node::Sqrt(a) => {
                    // normalise the radicand syntactically: a perfect square of a constant etc.
                    let x = self.nf[a].clone();
                    if let (Some(c), true) = (x.num.as_const(), x.den.is_empty()) {
                        if let Some(s) = rat_sqrt(&c) {
                            Arc::new(Nf { num: Poly::constant(s), den: vec![] })
                        } else {
                            Arc::new(Nf { num: Poly::gen(n), den: vec![] })
                        }
                    } else {
                        Arc::new(Nf { num: Poly::gen(n), den: vec![] })
                    }
                }
                _ => Arc::new(Nf { num: Poly::gen(n), den: vec![] }),
            };
            self.nf.insert(n, r);
        }
        self.nf[&i].clone()
    }

    fn nf_div(&mut self, x: &Nf, y: &Nf) -> Option<Nf> {
        if y.num.is_zero() {
            return None;
        }
        let yd = self.den_poly(&y.den)?;
        let num = self.pmul(&x.num, &yd)?;
        if let Some(c) = y.num.as_const() {
            let num = num.scale(&(Rat::one() / c));
            return Some(self.cancel(num, x.den.clone()));
        }
        let (mut prim, f) = y.num.primitive();
        let num = num.scale(&(Rat::one() / f));
        let mut l: std::collections::BTreeMap<u32, u32> = Default::default();
        for &(f, e) in x.den.iter() {
            *l.entry(f).or_insert(0) += e;
        }
        // split off known factors
        let known: Vec<u32> = (0..self.factors.len() as u32).rev().take(64).collect();
        for k in known {
            let kf = self.factors[k as usize].clone();
            if kf.len() > prim.len() || kf.len() * prim.len() > 4000 || kf.as_const().is_some() {
                continue;
            }
            while let Some(q) = prim.div_exact(&kf) {
                *l.entry(k).or_insert(0) += 1;
                prim = q;
                if prim.as_const().is_some() {
                    break;
                }
            }
            if prim.as_const().is_some() {
                break;
            }
        }
        let mut num = num;
        match prim.as_const() {
            Some(c) => num = num.scale(&(Rat::one() / c)),
            None => {
                let (p2, f2) = prim.primitive();
                num = num.scale(&(Rat::one() / f2));
                let id = self.factor(&p2);
                *l.entry(id).or_insert(0) += 1;
            }
        }
        let den = l.into_iter().collect();
        Some(self.cancel(num, den))
    }

    /// Polynomial whose sign equals the sign of the node (given that its denominators are nonzero),
    /// as (interned primitive polynomial, flipped?). None for constants: returns constant mask.
    pub fn sign_poly(&mut self, i: u32) -> Result<(u32, bool), u8> {
        let nf = self.nf(i);
        if let Some(c) = nf.num.as_const() {
            if c.is_zero() {
                return Err(ZERO);
            }
        }
        let mut p = nf.num.clone();
        let mut flipped = false;
        for &(f, e) in &nf.den {
            if e % 2 == 1 {
                let fp = self.factors[f as usize].clone();
                let fm = self.quick_sign(&fp) & (NEG | POS); // denominators are nonzero
                if fm == POS {
                    continue;
                }
                if fm == NEG {
                    flipped = !flipped;
                    continue;
                }
                p = match self.pmul(&p, &fp) {
                    Some(q) => q,
                    None => {
                        // give up: treat the node itself as an opaque generator
                        let _ = self.opaque_nf(i);
                        let (q, _) = Poly::gen(i).primitive();
                        let id = self.factor(&q);
                        return Ok((id, false));
                    }
                };
            }
        }
        if let Some(c) = p.as_const() {
            let m = sign_mask(&c);
            return Err(if flipped { flip(m) } else { m });
        }
        let (q, f) = p.primitive();
        if f.is_negative() {
            flipped = !flipped;
        }
        let id = self.factor(&q);
        Ok((id, flipped))
    }

    /// Cheap syntactic over-approximation of the possible signs of a polynomial.
    pub fn quick_sign(&self, p: &Poly) -> u8 {
        let mut can_pos = false;
        let mut can_neg = false;
        let mut konst = 0i32;
        for (m, c) in &p.0 {
            if m.0.is_empty() {
                konst = if c.is_positive() { 1 } else { -1 };
                continue;
            }
            let nonneg = m.0.iter().all(|(g, e)| {
                e % 2 == 0 || matches!(self.nodes[*g as usize], Node::Sqrt(_) | Node::Abs(_))
            });
            if nonneg {
                if c.is_positive() {
                    can_pos = true
                } else {
                    can_neg = true
                }
            } else {
                return NEG | ZERO | POS;
            }
        }
        match (can_pos, can_neg, konst) {
            (true, false, 1) | (false, false, 1) => POS,
            (true, false, 0) => POS | ZERO,
            (false, true, -1) | (false, false, -1) => NEG,
            (false, true, 0) => NEG | ZERO,
            (false, false, 0) => ZERO,
            _ => NEG | ZERO | POS,
        }
    }

    /// Numeric evaluation of a node (f64).
    pub fn eval(&self, i: u32, vals: &dyn Fn(u32) -> f64, memo: &mut FxHashMap<u32, f64>) -> f64 {
        let mut stack = vec![(i, false)];
        while let Some((n, done)) = stack.pop() {
            if memo.contains_key(&n) {
                continue;
            }
            let node = &self.nodes[n as usize];
            let kids: Vec<u32> = match node {
                Node::Add(a, b)
                | Node::Sub(a, b)
                | Node::Mul(a, b)
                | Node::Div(a, b)
                | Node::Atan2(a, b)
                | Node::Pow(a, b) => vec![*a, *b],
                Node::Sqrt(a) | Node::Abs(a) | Node::Fun(_, a) => vec![*a],
                Node::Ite(c, _, a, b) => vec![*c, *a, *b],
                _ => vec![],
            };
            if !done && kids.iter().any(|k| !memo.contains_key(k)) {
                stack.push((n, true));
                for k in kids {
                    stack.push((k, false));
                }
                continue;
            }
            let g = |k: &u32| memo[k];
            let v = match node {
                Node::Const(c) => rat_to_f64(c),
                Node::Var(v) => vals(*v),
                Node::Add(a, b) => g(a) + g(b),
                Node::Sub(a, b) => g(a) - g(b),
                Node::Mul(a, b) => g(a) * g(b),
                Node::Div(a, b) => g(a) / g(b),
                Node::Sqrt(a) => g(a).sqrt(),
                Node::Abs(a) => g(a).abs(),
                Node::Ite(c, m, a, b) => {
                    let c = g(c);
                    let s = if c < 0.0 {
                        NEG
                    } else if c > 0.0 {
                        POS
                    } else {
                        ZERO
                    };
                    if s & m != 0 {
                        g(a)
                    } else {
                        g(b)
                    }
                }
                Node::Fun(f, a) => eval_fun(*f, g(a)),
                Node::Atan2(a, b) => g(a).atan2(g(b)),
                Node::Pow(a, b) => g(a).powf(g(b)),
                Node::Undef => f64::NAN,
            };
            memo.insert(n, v);
        }
        memo[&i]
    }

    /// Symbolic derivative of node `i` with respect to variable node `x`.
    pub fn diff(&mut self, i: u32, x: u32, memo: &mut FxHashMap<u32, u32>) -> u32 {
        let mut stack = vec![(i, false)];
        while let Some((n, done)) = stack.pop() {
            if memo.contains_key(&n) {
                continue;
            }
            let node = self.nodes[n as usize].clone();
            let kids: Vec<u32> = match &node {
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) | Node::Pow(a, b) => {
                    vec![*a, *b]
                }
                Node::Sqrt(a) | Node::Abs(a) | Node::Fun(_, a) => vec![*a],
                Node::Ite(_, _, a, b) | Node::Atan2(a, b) => vec![*a, *b],
                _ => vec![],
            };
            if !done && kids.iter().any(|k| !memo.contains_key(k)) {
                stack.push((n, true));
                for k in kids {
                    stack.push((k, false));
                }
                continue;
            }
            let zero = self.konst(Rat::zero());
            let one = self.konst(Rat::one());
            let v = match node {
                Node::Const(_) | Node::Undef => zero,
                Node::Var(_) => {
                    if n == x {
                        one
                    } else {
                        zero
                    }
                }
                Node::Add(a, b) => {
                    let (p, q) = (memo[&a], memo[&b]);
                    self.add(p, q)
                }
                Node::Sub(a, b) => {
                    let (p, q) = (memo[&a], memo[&b]);
                    self.sub(p, q)
                }
                Node::Mul(a, b) => {
                    let (p, q) = (memo[&a], memo[&b]);
                    let l = self.mul(p, b);
                    let r = self.mul(a, q);
                    self.add(l, r)
                }
                Node::Div(a, b) => {
                    let (p, q) = (memo[&a], memo[&b]);
                    // (p - (a/b) q) / b
                    let t = self.mul(n, q);
                    let u = self.sub(p, t);
                    self.div(u, b)
                }
                Node::Sqrt(a) => {
                    let p = memo[&a];
                    let two = self.konst(Rat::from_integer(2.into()));
                    let d = self.mul(two, n);
                    self.div(p, d)
                }
                Node::Abs(a) => {
                    let p = memo[&a];
                    let m = self.neg(p);
                    self.ite(a, NEG, m, p)
                }
                Node::Ite(c, m, a, b) => {
                    let (p, q) = (memo[&a], memo[&b]);
                    self.ite(c, m, p, q)
                }
                Node::Fun(f, a) => {
                    let p = memo[&a];
                    let d = match f {
                        Fun::Ln => self.div(one, a),
                        Fun::Exp => n,
                        Fun::Sin => self.fun(Fun::Cos, a),
                        Fun::Cos => {
                            let s = self.fun(Fun::Sin, a);
                            self.neg(s)
                        }
                        Fun::Atan => {
                            let s = self.mul(a, a);
                            let s = self.add(one, s);
                            self.div(one, s)
                        }
                        Fun::Tan => {
                            let s = self.mul(n, n);
                            self.add(one, s)
                        }
                        Fun::Tanh => {
                            let s = self.mul(n, n);
                            self.sub(one, s)
                        }
                        _ => self.mk(Node::Undef),
                    };
                    self.mul(p, d)
                }
                Node::Atan2(..) | Node::Pow(..) => self.mk(Node::Undef),
            };
            memo.insert(n, v);
        }
        memo[&i]
    }
}

pub fn eval_fun(f: Fun, x: f64) -> f64 {
    match f {
        Fun::Ln => x.ln(),
        Fun::Exp => x.exp(),
        Fun::Sin => x.sin(),
        Fun::Cos => x.cos(),
        Fun::Atan => x.atan(),
        Fun::Acos => x.acos(),
        Fun::Asin => x.asin(),
        Fun::Tan => x.tan(),
        Fun::Tanh => x.tanh(),
        Fun::Floor => x.floor(),
    }
}

pub fn sign_mask(x: &Rat) -> u8 {
    if x.is_zero() {
        ZERO
    } else if x.is_negative() {
        NEG
    } else {
        POS
    }
}

pub fn flip(m: u8) -> u8 {
    (m & ZERO) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 }
}
