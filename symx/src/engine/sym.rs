//! The symbolic scalar: implements nalgebra's `RealField`, so that the real generic code of the
//! repository can be instantiated with it unchanged.
use super::dag::*;
use super::explore::with;
use approx::{AbsDiffEq, RelativeEq, UlpsEq};
use num::{BigInt, One, Signed, Zero};
use num_traits::{FromPrimitive, Num};
use simba::scalar::{ComplexField, Field, RealField, SubsetOf};
use simba::simd::SimdValue;
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Sym(pub u32);

impl Sym {
    pub fn konst(r: super::poly::Rat) -> Sym {
        Sym(with(|e| e.dag.konst(r)))
    }
    pub fn int(i: i64) -> Sym {
        Sym::konst(super::poly::Rat::from_integer(BigInt::from(i)))
    }
    pub fn lit(x: f64) -> Sym {
        if x.is_finite() {
            Sym::konst(ideal_f64(x))
        } else {
            Sym(with(|e| e.dag.mk(Node::Undef)))
        }
    }
    fn cmp0(self, o: Sym, mask: u8) -> bool {
        with(|e| {
            let d = e.dag.sub(self.0, o.0);
            e.branch(d, mask)
        })
    }
    fn fun(self, f: Fun) -> Sym {
        Sym(with(|e| e.dag.fun(f, self.0)))
    }
}

impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "sym#{}", self.0)
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "sym#{}", self.0)
    }
}
impl Default for Sym {
    fn default() -> Self {
        Sym::int(0)
    }
}

macro_rules! binop {
    ($tr:ident, $m:ident, $atr:ident, $am:ident, |$e:ident, $a:ident, $b:ident| $body:expr) => {
        impl $tr for Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                Sym(with(|$e| {
                    let ($a, $b) = (self.0, o.0);
                    $body
                }))
            }
        }
        impl<'a> $tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: &'a Sym) -> Sym {
                $tr::$m(self, *o)
            }
        }
        impl $atr for Sym {
            fn $am(&mut self, o: Sym) {
                *self = $tr::$m(*self, o);
            }
        }
        impl<'a> $atr<&'a Sym> for Sym {
            fn $am(&mut self, o: &'a Sym) {
                *self = $tr::$m(*self, *o);
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, |e, a, b| e.dag.add(a, b));
binop!(Sub, sub, SubAssign, sub_assign, |e, a, b| e.dag.sub(a, b));
binop!(Mul, mul, MulAssign, mul_assign, |e, a, b| e.dag.mul(a, b));
binop!(Div, div, DivAssign, div_assign, |e, a, b| {
    if e.dag.as_const(b).is_none() {
        e.defined(b, NEG | POS, "divisor");
    }
    e.dag.div(a, b)
});
binop!(Rem, rem, RemAssign, rem_assign, |e, _a, _b| {
    e.error = Some("unsupported: remainder".into());
    e.dag.mk(Node::Undef)
});

impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        Sym(with(|e| e.dag.neg(self.0)))
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        if with(|e| e.dag.is_undef(self.0) || e.dag.is_undef(o.0)) {
            return false;
        }
        self.0 == o.0 || self.cmp0(*o, ZERO)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if with(|e| e.dag.is_undef(self.0) || e.dag.is_undef(o.0)) {
            return None;
        }
        if self.cmp0(*o, NEG) {
            Some(Ordering::Less)
        } else if self.cmp0(*o, ZERO) {
            Some(Ordering::Equal)
        } else {
            Some(Ordering::Greater)
        }
    }
    fn lt(&self, o: &Sym) -> bool {
        self.cmp0(*o, NEG)
    }
    fn le(&self, o: &Sym) -> bool {
        self.cmp0(*o, NEG | ZERO)
    }
    fn gt(&self, o: &Sym) -> bool {
        self.cmp0(*o, POS)
    }
    fn ge(&self, o: &Sym) -> bool {
        self.cmp0(*o, POS | ZERO)
    }
}
impl Zero for Sym {
    fn zero() -> Sym {
        Sym::int(0)
    }
    fn is_zero(&self) -> bool {
        self.cmp0(Sym::int(0), ZERO)
    }
}
impl One for Sym {
    fn one() -> Sym {
        Sym::int(1)
    }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Sym, ()> {
        Err(())
    }
}
impl Signed for Sym {
    fn abs(&self) -> Sym {
        Sym(with(|e| {
            let p = e.possible_mask(self.0);
            if p & NEG == 0 {
                self.0
            } else if p & POS == 0 {
                e.dag.neg(self.0)
            } else {
                e.dag.abs(self.0)
            }
        }))
    }
    fn abs_sub(&self, o: &Sym) -> Sym {
        Sym(with(|e| {
            let d = e.dag.sub(self.0, o.0);
            let z = e.dag.konst(super::explore::zero_rat());
            e.dag.ite(d, POS, d, z)
        }))
    }
    fn signum(&self) -> Sym {
        // f64: signum(+0) = 1
        if self.cmp0(Sym::int(0), POS | ZERO) {
            Sym::int(1)
        } else {
            Sym::int(-1)
        }
    }
    fn is_positive(&self) -> bool {
        self.cmp0(Sym::int(0), POS)
    }
    fn is_negative(&self) -> bool {
        self.cmp0(Sym::int(0), NEG)
    }
}
/// Symbolic values pass through code that stores f64s (file formats) as recognisable, very large numbers.
const TUNNEL: u64 = 0x6ABC_DEF1;
impl num_traits::ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        None
    }
    fn to_u64(&self) -> Option<u64> {
        None
    }
    fn to_f64(&self) -> Option<f64> {
        Some(match with(|e| e.dag.as_const(self.0).map(|r| rat_to_f64(r))) {
            Some(x) => x,
            None => f64::from_bits(TUNNEL << 32 | self.0 as u64),
        })
    }
}
impl FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Sym> {
        Some(Sym::int(n))
    }
    fn from_u64(n: u64) -> Option<Sym> {
        Some(Sym::konst(super::poly::Rat::from_integer(BigInt::from(n))))
    }
    fn from_f64(n: f64) -> Option<Sym> {
        if n.to_bits() >> 32 == TUNNEL {
            return Some(Sym(n.to_bits() as u32));
        }
        Some(Sym::lit(n))
    }
    fn from_f32(n: f32) -> Option<Sym> {
        Some(Sym::lit(n as f64))
    }
}
impl SubsetOf<Sym> for Sym {
    fn to_superset(&self) -> Sym {
        *self
    }
    fn from_superset_unchecked(e: &Sym) -> Sym {
        *e
    }
    fn is_in_subset(_: &Sym) -> bool {
        true
    }
}
macro_rules! sub_prim {
    ($($t:ty),*) => {$(
        impl SubsetOf<Sym> for $t {
            fn to_superset(&self) -> Sym { Sym::lit(*self as f64) }
            fn from_superset_unchecked(s: &Sym) -> $t {
                match with(|e| e.dag.as_const(s.0).map(|r| rat_to_f64(r))) {
                    Some(x) => x as $t,
                    None => {
                        with(|e| e.error = Some("unsupported: symbolic value converted to a primitive".into()));
                        std::panic::panic_any(super::explore::PathStop("concretisation"))
                    }
                }
            }
            fn is_in_subset(_: &Sym) -> bool { true }
        }
    )*};
}
sub_prim!(f64, f32, usize, i32, u32, i64, u64);
impl SimdValue for Sym {
    type Element = Sym;
    type SimdBool = bool;
    fn lanes() -> usize {
        1
    }
    fn splat(v: Sym) -> Sym {
        v
    }
    fn extract(&self, _: usize) -> Sym {
        *self
    }
    unsafe fn extract_unchecked(&self, _: usize) -> Sym {
        *self
    }
    fn replace(&mut self, _: usize, v: Sym) {
        *self = v
    }
    unsafe fn replace_unchecked(&mut self, _: usize, v: Sym) {
        *self = v
    }
    fn select(self, c: bool, o: Sym) -> Sym {
        if c {
            self
        } else {
            o
        }
    }
}
impl Field for Sym {}
impl AbsDiffEq for Sym {
    type Epsilon = Sym;
    fn default_epsilon() -> Sym {
        Sym::konst(rat_from_f64(f64::EPSILON))
    }
    fn abs_diff_eq(&self, o: &Sym, eps: Sym) -> bool {
        Signed::abs(&(*self - *o)) <= eps
    }
}
impl RelativeEq for Sym {
    fn default_max_relative() -> Sym {
        Sym::konst(rat_from_f64(f64::EPSILON))
    }
    fn relative_eq(&self, o: &Sym, eps: Sym, max_rel: Sym) -> bool {
        let d = Signed::abs(&(*self - *o));
        if d <= eps {
            return true;
        }
        let (a, b) = (Signed::abs(self), Signed::abs(o));
        let l = RealField::max(a, b);
        d <= l * max_rel
    }
}
impl UlpsEq for Sym {
    fn default_max_ulps() -> u32 {
        4
    }
    fn ulps_eq(&self, o: &Sym, eps: Sym, _: u32) -> bool {
        self.abs_diff_eq(o, eps)
    }
}

fn pi_rat() -> Sym {
    Sym::konst(rat_from_f64(std::f64::consts::PI))
}

impl ComplexField for Sym {
    type RealField = Sym;
    fn from_real(re: Sym) -> Sym {
        re
    }
    fn real(self) -> Sym {
        self
    }
    fn imaginary(self) -> Sym {
        Sym::zero()
    }
    fn modulus(self) -> Sym {
        Signed::abs(&self)
    }
    fn modulus_squared(self) -> Sym {
        self * self
    }
    fn argument(self) -> Sym {
        if self >= Sym::zero() {
            Sym::zero()
        } else {
            pi_rat()
        }
    }
    fn norm1(self) -> Sym {
        Signed::abs(&self)
    }
    fn scale(self, f: Sym) -> Sym {
        self * f
    }
    fn unscale(self, f: Sym) -> Sym {
        self / f
    }
    fn to_exp(self) -> (Sym, Sym) {
        if self >= Sym::zero() {
            (self, Sym::one())
        } else {
            (-self, -Sym::one())
        }
    }
    fn floor(self) -> Sym {
        self.fun(Fun::Floor)
    }
    fn ceil(self) -> Sym {
        -((-self).fun(Fun::Floor))
    }
    fn round(self) -> Sym {
        if self >= Sym::zero() {
            (self + Sym::lit(0.5)).fun(Fun::Floor)
        } else {
            -((-self + Sym::lit(0.5)).fun(Fun::Floor))
        }
    }
    fn trunc(self) -> Sym {
        if self >= Sym::zero() {
            self.fun(Fun::Floor)
        } else {
            -((-self).fun(Fun::Floor))
        }
    }
    fn fract(self) -> Sym {
        self - self.trunc()
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    fn abs(self) -> Sym {
        Signed::abs(&self)
    }
    fn hypot(self, o: Sym) -> Sym {
        ComplexField::sqrt(self * self + o * o)
    }
    fn recip(self) -> Sym {
        Sym::one() / self
    }
    fn conjugate(self) -> Sym {
        self
    }
    fn signum(self) -> Sym {
        Signed::signum(&self)
    }
    fn sin(self) -> Sym {
        self.sin_cos().0
    }
    fn cos(self) -> Sym {
        self.sin_cos().1
    }
    fn sin_cos(self) -> (Sym, Sym) {
        match angle(self.0) {
            Some((c, s)) => (s, c),
            None => (self.fun(Fun::Sin), self.fun(Fun::Cos)),
        }
    }
    fn tan(self) -> Sym {
        self.fun(Fun::Tan)
    }
    fn asin(self) -> Sym {
        self.fun(Fun::Asin)
    }
    fn acos(self) -> Sym {
        self.fun(Fun::Acos)
    }
    fn atan(self) -> Sym {
        self.fun(Fun::Atan)
    }
    fn sinh(self) -> Sym {
        (ComplexField::exp(self) - ComplexField::exp(-self)) / Sym::int(2)
    }
    fn cosh(self) -> Sym {
        (ComplexField::exp(self) + ComplexField::exp(-self)) / Sym::int(2)
    }
    fn tanh(self) -> Sym {
        self.fun(Fun::Tanh)
    }
    fn asinh(self) -> Sym {
        unsupported("asinh")
    }
    fn acosh(self) -> Sym {
        unsupported("acosh")
    }
    fn atanh(self) -> Sym {
        unsupported("atanh")
    }
    fn log(self, b: Sym) -> Sym {
        ComplexField::ln(self) / ComplexField::ln(b)
    }
    fn log2(self) -> Sym {
        self.log(Sym::int(2))
    }
    fn log10(self) -> Sym {
        self.log(Sym::int(10))
    }
    fn ln(self) -> Sym {
        with(|e| {
            if e.dag.as_const(self.0).is_none() {
                e.defined(self.0, POS, "logarithm argument")
            }
        });
        self.fun(Fun::Ln)
    }
    fn ln_1p(self) -> Sym {
        ComplexField::ln(self + Sym::one())
    }
    fn sqrt(self) -> Sym {
        with(|e| {
            if e.dag.as_const(self.0).is_none() {
                e.defined(self.0, POS | ZERO, "square root argument")
            }
        });
        Sym(with(|e| e.dag.sqrt(self.0)))
    }
    fn exp(self) -> Sym {
        self.fun(Fun::Exp)
    }
    fn exp2(self) -> Sym {
        unsupported("exp2")
    }
    fn exp_m1(self) -> Sym {
        self.fun(Fun::Exp) - Sym::one()
    }
    fn powi(self, n: i32) -> Sym {
        let mut r = Sym::one();
        for _ in 0..n.unsigned_abs() {
            r = r * self;
        }
        if n < 0 {
            Sym::one() / r
        } else {
            r
        }
    }
    fn powf(self, n: Sym) -> Sym {
        let c = with(|e| e.dag.as_const(n.0).cloned());
        if let Some(c) = c {
            if c.is_integer() {
                use num::ToPrimitive;
                return ComplexField::powi(self, c.to_integer().to_i32().unwrap());
            }
            let two = c.clone() * super::poly::Rat::from_integer(2.into());
            if two.is_integer() {
                use num::ToPrimitive;
                return ComplexField::powi(ComplexField::sqrt(self), two.to_integer().to_i32().unwrap());
            }
        }
        Sym(with(|e| e.dag.mk(Node::Pow(self.0, n.0))))
    }
    fn powc(self, n: Sym) -> Sym {
        ComplexField::powf(self, n)
    }
    fn cbrt(self) -> Sym {
        let third = Sym::konst(super::poly::Rat::new(1.into(), 3.into()));
        Sym(with(|e| e.dag.mk(Node::Pow(self.0, third.0))))
    }
    fn is_finite(&self) -> bool {
        !with(|e| e.dag.is_undef(self.0))
    }
    fn try_sqrt(self) -> Option<Sym> {
        if self >= Sym::zero() {
            Some(ComplexField::sqrt(self))
        } else {
            None
        }
    }
}

/// (cos, sin) of an angle built from arctangents by integer multiples, sums and differences.
fn angle(n: u32) -> Option<(Sym, Sym)> {
    use super::poly::Rat;
    use num::{Signed, ToPrimitive, Zero};
    fn go(n: u32, k: Rat) -> Option<(Sym, Sym)> {
        if k.is_zero() {
            return Some((Sym::one(), Sym::zero()));
        }
        let node = with(|e| e.dag.nodes[n as usize].clone());
        let join = |a: (Sym, Sym), b: (Sym, Sym)| (a.0 * b.0 - a.1 * b.1, a.1 * b.0 + a.0 * b.1);
        match node {
            Node::Const(r) if r.is_zero() => Some((Sym::one(), Sym::zero())),
            Node::Add(a, b) => Some(join(go(a, k.clone())?, go(b, k)?)),
            Node::Sub(a, b) => Some(join(go(a, k.clone())?, go(b, -k)?)),
            Node::Mul(a, b) => {
                let (ca, cb) = with(|e| (e.dag.as_const(a).cloned(), e.dag.as_const(b).cloned()));
                match (ca, cb) {
                    (Some(c), _) => go(b, k * c),
                    (_, Some(c)) => go(a, k * c),
                    _ => None,
                }
            }
            Node::Fun(Fun::Atan, _) | Node::Atan2(..) => {
                let k2 = &k * Rat::from_integer(2.into());
                if !k2.is_integer() {
                    return None;
                }
                let (y, x) = match node {
                    Node::Atan2(y, x) => (Sym(y), Sym(x)),
                    Node::Fun(_, t) => (Sym(t), Sym::one()),
                    _ => unreachable!(),
                };
                let r = ComplexField::sqrt(x * x + y * y);
                let sign = |s: Sym| if k.is_negative() { -s } else { s };
                let (one, times) = if k.is_integer() {
                    ((x / r, sign(y / r)), k.abs())
                } else {
                    // the half angle is in (-pi/2, pi/2], and is pi/2 for a negative x with y = 0
                    let c = x / r;
                    let half = if Sym::zero() < r + x {
                        let h = ComplexField::sqrt((Sym::one() + c) / Sym::int(2));
                        (h, sign(y / (r * h * Sym::int(2))))
                    } else {
                        (Sym::zero(), sign(Sym::one()))
                    };
                    (half, k2.abs())
                };
                let mut acc = one;
                for _ in 1..times.to_integer().to_i32()? {
                    acc = join(acc, one);
                }
                Some(acc)
            }
            _ => None,
        }
    }
    go(n, num::One::one())
}

fn unsupported(what: &'static str) -> Sym {
    with(|e| e.error = Some(format!("unsupported function {}", what)));
    std::panic::panic_any(super::explore::PathStop("unsupported"))
}

impl RealField for Sym {
    fn is_sign_positive(&self) -> bool {
        self.cmp0(Sym::zero(), POS | ZERO)
    }
    fn is_sign_negative(&self) -> bool {
        self.cmp0(Sym::zero(), NEG)
    }
    fn copysign(self, sign: Sym) -> Sym {
        Sym(with(|e| {
            let a = e.dag.abs(self.0);
            let n = e.dag.neg(a);
            e.dag.ite(sign.0, NEG, n, a)
        }))
    }
    fn max(self, o: Sym) -> Sym {
        Sym(with(|e| {
            if e.dag.is_undef(self.0) {
                return o.0;
            }
            if e.dag.is_undef(o.0) {
                return self.0;
            }
            let d = e.dag.sub(self.0, o.0);
            let p = e.possible_mask(d);
            if p & NEG == 0 {
                self.0
            } else if p & POS == 0 {
                o.0
            } else {
                e.dag.ite(d, NEG, o.0, self.0)
            }
        }))
    }
    fn min(self, o: Sym) -> Sym {
        Sym(with(|e| {
            if e.dag.is_undef(self.0) {
                return o.0;
            }
            if e.dag.is_undef(o.0) {
                return self.0;
            }
            let d = e.dag.sub(self.0, o.0);
            let p = e.possible_mask(d);
            if p & POS == 0 {
                self.0
            } else if p & NEG == 0 {
                o.0
            } else {
                e.dag.ite(d, POS, o.0, self.0)
            }
        }))
    }
    fn clamp(self, lo: Sym, hi: Sym) -> Sym {
        RealField::min(RealField::max(self, lo), hi)
    }
    fn atan2(self, o: Sym) -> Sym {
        Sym(with(|e| e.dag.mk(Node::Atan2(self.0, o.0))))
    }
    fn min_value() -> Option<Sym> {
        Some(Sym::konst(rat_from_f64(f64::MIN)))
    }
    fn max_value() -> Option<Sym> {
        Some(Sym::konst(rat_from_f64(f64::MAX)))
    }
    fn pi() -> Sym {
        pi_rat()
    }
    fn two_pi() -> Sym {
        pi_rat() * Sym::int(2)
    }
    fn frac_pi_2() -> Sym {
        pi_rat() / Sym::int(2)
    }
    fn frac_pi_3() -> Sym {
        pi_rat() / Sym::int(3)
    }
    fn frac_pi_4() -> Sym {
        pi_rat() / Sym::int(4)
    }
    fn frac_pi_6() -> Sym {
        pi_rat() / Sym::int(6)
    }
    fn frac_pi_8() -> Sym {
        pi_rat() / Sym::int(8)
    }
    fn frac_1_pi() -> Sym {
        Sym::one() / pi_rat()
    }
    fn frac_2_pi() -> Sym {
        Sym::int(2) / pi_rat()
    }
    fn frac_2_sqrt_pi() -> Sym {
        Sym::konst(rat_from_f64(std::f64::consts::FRAC_2_SQRT_PI))
    }
    fn e() -> Sym {
        Sym::konst(rat_from_f64(std::f64::consts::E))
    }
    fn log2_e() -> Sym {
        Sym::konst(rat_from_f64(std::f64::consts::LOG2_E))
    }
    fn log10_e() -> Sym {
        Sym::konst(rat_from_f64(std::f64::consts::LOG10_E))
    }
    fn ln_2() -> Sym {
        Sym::konst(rat_from_f64(std::f64::consts::LN_2))
    }
    fn ln_10() -> Sym {
        Sym::konst(rat_from_f64(std::f64::consts::LN_10))
    }
}
