//! Canonical sparse multivariate polynomials with exact rational coefficients.
use num::{BigInt, BigRational, One, Signed, Zero};
use std::collections::BTreeMap;

pub type Rat = BigRational;

/// Sorted list of (generator, exponent), generator = DAG node id.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Mono(pub Vec<(u32, u32)>);

impl Mono {
    pub fn one() -> Self {
        Mono(vec![])
    }
    pub fn gen(g: u32) -> Self {
        Mono(vec![(g, 1)])
    }
    pub fn mul(&self, o: &Mono) -> Mono {
        let mut r = Vec::with_capacity(self.0.len() + o.0.len());
        let (mut i, mut j) = (0, 0);
        while i < self.0.len() && j < o.0.len() {
            let (a, b) = (self.0[i], o.0[j]);
            if a.0 == b.0 {
                r.push((a.0, a.1 + b.1));
                i += 1;
                j += 1;
            } else if a.0 < b.0 {
                r.push(a);
                i += 1;
            } else {
                r.push(b);
                j += 1;
            }
        }
        r.extend_from_slice(&self.0[i..]);
        r.extend_from_slice(&o.0[j..]);
        Mono(r)
    }
    pub fn degree(&self) -> u32 {
        self.0.iter().map(|x| x.1).sum()
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Poly(pub BTreeMap<Mono, Rat>);

impl Poly {
    pub fn zero() -> Self {
        Poly(BTreeMap::new())
    }
    pub fn constant(c: Rat) -> Self {
        let mut m = BTreeMap::new();
        if !c.is_zero() {
            m.insert(Mono::one(), c);
        }
        Poly(m)
    }
    pub fn one() -> Self {
        Self::constant(Rat::one())
    }
    pub fn gen(g: u32) -> Self {
        let mut m = BTreeMap::new();
        m.insert(Mono::gen(g), Rat::one());
        Poly(m)
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn as_const(&self) -> Option<Rat> {
        if self.0.is_empty() {
            Some(Rat::zero())
        } else if self.0.len() == 1 {
            let (m, c) = self.0.iter().next().unwrap();
            if m.0.is_empty() {
                Some(c.clone())
            } else {
                None
            }
        } else {
            None
        }
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn add_assign_scaled(&mut self, o: &Poly, s: &Rat) {
        for (m, c) in &o.0 {
            let v = c * s;
            match self.0.get_mut(m) {
                Some(x) => {
                    *x += v;
                    if x.is_zero() {
                        self.0.remove(m);
                    }
                }
                None => {
                    if !v.is_zero() {
                        self.0.insert(m.clone(), v);
                    }
                }
            }
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let (big, small) = if self.len() >= o.len() { (self, o) } else { (o, self) };
        let mut r = big.clone();
        r.add_assign_scaled(small, &Rat::one());
        r
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        let mut r = self.clone();
        r.add_assign_scaled(o, &-Rat::one());
        r
    }
    pub fn scale(&self, s: &Rat) -> Poly {
        if s.is_zero() {
            return Poly::zero();
        }
        Poly(self.0.iter().map(|(m, c)| (m.clone(), c * s)).collect())
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        let mut acc: rustc_hash::FxHashMap<Mono, Rat> = Default::default();
        for (m1, c1) in &self.0 {
            for (m2, c2) in &o.0 {
                let m = m1.mul(m2);
                let c = c1 * c2;
                match acc.get_mut(&m) {
                    Some(x) => *x += c,
                    None => {
                        acc.insert(m, c);
                    }
                }
            }
        }
        Poly(acc.into_iter().filter(|(_, c)| !c.is_zero()).collect())
    }
    /// Returns (canonical primitive integer polynomial with positive leading coeff, factor) such that
    /// self = factor * canonical.
    pub fn primitive(&self) -> (Poly, Rat) {
        if self.is_zero() {
            return (Poly::zero(), Rat::one());
        }
        use num::Integer;
        let mut den = BigInt::one();
        for c in self.0.values() {
            den = den.lcm(c.denom());
        }
        let mut g = BigInt::zero();
        for c in self.0.values() {
            let v = (c * Rat::from_integer(den.clone())).to_integer();
            g = g.gcd(&v);
        }
        let lead_neg = self.0.values().next_back().unwrap().is_negative();
        let mut f = Rat::new(g, den);
        if lead_neg {
            f = -f;
        }
        let inv = Rat::one() / f.clone();
        (self.scale(&inv), f)
    }
    pub fn degree(&self) -> u32 {
        self.0.keys().map(|m| m.degree()).max().unwrap_or(0)
    }
    pub fn gens(&self, out: &mut std::collections::BTreeSet<u32>) {
        for m in self.0.keys() {
            for (g, _) in &m.0 {
                out.insert(*g);
            }
        }
    }
    /// Exact division by `d`, if it divides (cheap single/multi-term attempt with a step limit).
    pub fn div_exact(&self, d: &Poly) -> Option<Poly> {
        if d.is_zero() {
            return None;
        }
        let (lm, lc) = {
            let (m, c) = d.0.iter().next_back().unwrap();
            (m.clone(), c.clone())
        };
        let mut rem = self.clone();
        let mut q = Poly::zero();
        let mut steps = 0;
        while !rem.is_zero() {
            steps += 1;
            if steps > 3000 {
                return None;
            }
            // The BTreeMap order is not a monomial order in general, so look for any divisible top
            // term under graded-lex order.
            let (m, c) = {
                let (m, c) = rem.0.iter().max_by(|a, b| cmp_grlex(a.0, b.0)).unwrap();
                (m.clone(), c.clone())
            };
            let (dm, dc) = if steps == 1 { top(d) } else { top(d) };
            let _ = (&lm, &lc);
            let t = mono_div(&m, &dm)?;
            let qc = c / dc;
            let term = Poly(std::iter::once((t.clone(), qc.clone())).collect());
            q = q.add(&term);
            rem = rem.sub(&d.mul(&term));
        }
        Some(q)
    }
}

fn top(d: &Poly) -> (Mono, Rat) {
    let (m, c) = d.0.iter().max_by(|a, b| cmp_grlex(a.0, b.0)).unwrap();
    (m.clone(), c.clone())
}

fn cmp_grlex(a: &Mono, b: &Mono) -> std::cmp::Ordering {
    a.degree().cmp(&b.degree()).then_with(|| {
        // lex: compare exponent of smallest generator first
        let (mut i, mut j) = (0, 0);
        loop {
            match (a.0.get(i), b.0.get(j)) {
                (None, None) => return std::cmp::Ordering::Equal,
                (Some(_), None) => return std::cmp::Ordering::Greater,
                (None, Some(_)) => return std::cmp::Ordering::Less,
                (Some(x), Some(y)) => {
                    if x.0 < y.0 {
                        return std::cmp::Ordering::Greater;
                    } else if x.0 > y.0 {
                        return std::cmp::Ordering::Less;
                    } else if x.1 != y.1 {
                        return x.1.cmp(&y.1);
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
    })
}

fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut r = vec![];
    let mut j = 0;
    for &(g, e) in &a.0 {
        if j < b.0.len() && b.0[j].0 == g {
            if b.0[j].1 > e {
                return None;
            }
            if e > b.0[j].1 {
                r.push((g, e - b.0[j].1));
            }
            j += 1;
        } else {
            if j < b.0.len() && b.0[j].0 < g {
                return None;
            }
            r.push((g, e));
        }
    }
    if j < b.0.len() {
        return None;
    }
    Some(Mono(r))
}
