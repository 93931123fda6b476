//! Independent constraint expressions over the harness's own field.
use std::collections::BTreeSet;
use vpbt::{Fp, Gen};
use zkp_primefield::FieldElement;
use zkp_stark::{DensePolynomial, RationalExpression as RE};
use zkp_u256::U256;

pub fn fe(x: Fp) -> FieldElement {
    FieldElement::from_montgomery(U256::from_limbs(x.mont()))
}

pub fn mont_limbs(x: &FieldElement) -> [u64; 4] {
    let u = x.as_montgomery();
    [u.limb(0), u.limb(1), u.limb(2), u.limb(3)]
}

pub fn fp(x: &FieldElement) -> Fp {
    Fp::from_mont(mont_limbs(x))
}

/// Primitive root of unity of order 2^k: 3^((p - 1) / 2^k)
pub fn root(n: usize) -> Fp {
    assert!(n.is_power_of_two());
    let e = Fp::modulus().sub(&vpbt::Nat::one()).shr(n.trailing_zeros() as usize);
    Fp::from_u64(3).pow_nat(&e)
}

/// A generated field element: small, boundary, sparse or uniform.
pub fn felt(g: &mut Gen) -> Fp {
    match g.below(8) {
        0 => Fp::zero(),
        1 => Fp::one(),
        2 => Fp::from_u64(g.below(10)),
        3 => Fp::from_u64(1 + g.below(10)).neg(),
        _ => {
            let mut l = g.limbs4();
            l[3] &= (1 << 59) - 1;
            Fp::from_limbs(l)
        }
    }
}

pub fn rand_felt(r: &mut vpbt::gen::Rng) -> Fp {
    let mut l = [r.next(), r.next(), r.next(), r.next()];
    l[3] &= (1 << 59) - 1;
    Fp::from_limbs(l)
}

#[derive(Clone, PartialEq)]
pub enum E {
    X,
    C(Fp),
    T(usize, isize),
    /// Polynomial with coefficients (length a power of two) in a sub-expression
    P(Vec<Fp>, Box<E>),
    /// Claim polynomial: index, degree bound, argument
    Q(usize, usize, Box<E>),
    Add(Box<E>, Box<E>),
    Neg(Box<E>),
    Mul(Box<E>, Box<E>),
    Inv(Box<E>),
    Exp(Box<E>, usize),
}
use E::*;

impl std::fmt::Debug for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            X => write!(f, "X"),
            C(c) => {
                let n = c.to_nat();
                let m = c.neg().to_nat();
                if n.bits() < 32 {
                    write!(f, "{}", n.to_dec())
                } else if m.bits() < 32 {
                    write!(f, "-{}", m.to_dec())
                } else {
                    write!(f, "0x{}..", &n.to_hex()[..6])
                }
            }
            T(c, o) => write!(f, "T({},{})", c, o),
            P(p, a) => write!(f, "P[{}]({:?})", p.len(), a),
            Q(i, b, a) => write!(f, "Claim{}<={}({:?})", i, b, a),
            Add(a, b) => write!(f, "({:?} + {:?})", a, b),
            Neg(a) => write!(f, "-{:?}", a),
            Mul(a, b) => write!(f, "{:?}*{:?}", a, b),
            Inv(a) => write!(f, "1/({:?})", a),
            Exp(a, e) => write!(f, "({:?})^{}", a, e),
        }
    }
}

pub fn horner(p: &[Fp], x: Fp) -> Fp {
    p.iter().rev().fold(Fp::zero(), |a, c| a * x + *c)
}

pub fn add(a: E, b: E) -> E {
    Add(Box::new(a), Box::new(b))
}
pub fn sub(a: E, b: E) -> E {
    add(a, neg(b))
}
pub fn neg(a: E) -> E {
    Neg(Box::new(a))
}
pub fn mul(a: E, b: E) -> E {
    Mul(Box::new(a), Box::new(b))
}
pub fn inv(a: E) -> E {
    Inv(Box::new(a))
}
pub fn div(a: E, b: E) -> E {
    mul(a, inv(b))
}
pub fn pow(a: E, e: usize) -> E {
    Exp(Box::new(a), e)
}

impl E {
    pub fn re(&self) -> RE {
        match self {
            X => RE::X,
            C(c) => RE::Constant(fe(*c)),
            T(c, o) => RE::Trace(*c, *o),
            P(p, a) => RE::Polynomial(dense(p), Box::new(a.re())),
            Q(i, b, a) => RE::ClaimPolynomial(*i, *b, Box::new(a.re()), None),
            Add(a, b) => RE::Add(Box::new(a.re()), Box::new(b.re())),
            Neg(a) => RE::Neg(Box::new(a.re())),
            Mul(a, b) => RE::Mul(Box::new(a.re()), Box::new(b.re())),
            Inv(a) => RE::Inv(Box::new(a.re())),
            Exp(a, e) => RE::Exp(Box::new(a.re()), *e),
        }
    }

    pub fn from_re(r: &RE) -> E {
        match r {
            RE::X => X,
            RE::Constant(c) => C(fp(c)),
            RE::Trace(c, o) => T(*c, *o),
            RE::Polynomial(p, a) => P(p.coefficients().iter().map(fp).collect(), Box::new(E::from_re(a))),
            RE::ClaimPolynomial(i, b, a, _) => Q(*i, *b, Box::new(E::from_re(a))),
            RE::Add(a, b) => add(E::from_re(a), E::from_re(b)),
            RE::Neg(a) => neg(E::from_re(a)),
            RE::Mul(a, b) => mul(E::from_re(a), E::from_re(b)),
            RE::Inv(a) => inv(E::from_re(a)),
            RE::Exp(a, e) => pow(E::from_re(a), *e),
        }
    }

    /// Value, None on a division by zero.
    pub fn eval(&self, x: Fp, t: &dyn Fn(usize, isize) -> Fp, claims: &[Vec<Fp>]) -> Option<Fp> {
        Some(match self {
            X => x,
            C(c) => *c,
            T(c, o) => t(*c, *o),
            P(p, a) => horner(p, a.eval(x, t, claims)?),
            Q(i, _, a) => horner(&claims[*i], a.eval(x, t, claims)?),
            Add(a, b) => a.eval(x, t, claims)? + b.eval(x, t, claims)?,
            Neg(a) => a.eval(x, t, claims)?.neg(),
            Mul(a, b) => a.eval(x, t, claims)? * b.eval(x, t, claims)?,
            Inv(a) => {
                let v = a.eval(x, t, claims)?;
                if v.is_zero() {
                    return None;
                }
                v.inv()
            }
            Exp(a, e) => a.eval(x, t, claims)?.pow(*e as u64),
        })
    }

    /// Value as a fraction: numerator and denominator of the formal quotient.
    pub fn frac(&self, x: Fp, t: &dyn Fn(usize, isize) -> Fp, claims: &[Vec<Fp>]) -> (Fp, Fp) {
        let one = Fp::one();
        match self {
            X => (x, one),
            C(c) => (*c, one),
            T(c, o) => (t(*c, *o), one),
            P(p, a) => poly_frac(p, a.frac(x, t, claims)),
            Q(i, _, a) => poly_frac(&claims[*i], a.frac(x, t, claims)),
            Add(a, b) => {
                let (an, ad) = a.frac(x, t, claims);
                let (bn, bd) = b.frac(x, t, claims);
                (an * bd + bn * ad, ad * bd)
            }
            Neg(a) => {
                let (n, d) = a.frac(x, t, claims);
                (n.neg(), d)
            }
            Mul(a, b) => {
                let (an, ad) = a.frac(x, t, claims);
                let (bn, bd) = b.frac(x, t, claims);
                (an * bn, ad * bd)
            }
            Inv(a) => {
                let (n, d) = a.frac(x, t, claims);
                (d, n)
            }
            Exp(a, e) => {
                let (n, d) = a.frac(x, t, claims);
                (n.pow(*e as u64), d.pow(*e as u64))
            }
        }
    }

    /// Does the constraint hold at a point of the trace domain? True for
    /// expressions whose denominator has simple zeros and whose numerator
    /// vanishes there exactly when the constraint does or is not enforced.
    pub fn holds(&self, x: Fp, t: &dyn Fn(usize, isize) -> Fp, claims: &[Vec<Fp>]) -> bool {
        let (n, d) = self.frac(x, t, claims);
        !d.is_zero() || n.is_zero()
    }

    pub fn args(&self, s: &mut BTreeSet<(usize, isize)>) {
        match self {
            X | C(_) => {}
            T(c, o) => {
                let _ = s.insert((*c, *o));
            }
            P(_, a) | Q(_, _, a) | Neg(a) | Inv(a) | Exp(a, _) => a.args(s),
            Add(a, b) | Mul(a, b) => {
                a.args(s);
                b.args(s);
            }
        }
    }

    /// Formal numerator and denominator degree, X and trace cells having the
    /// given degrees.
    pub fn degree(&self, xd: usize, td: usize) -> (usize, usize) {
        match self {
            X => (xd, 0),
            C(_) => (0, 0),
            T(..) => (td, 0),
            P(p, a) => {
                let d = poly_degree(p);
                let (n, m) = a.degree(xd, td);
                (d * n.max(m), d * m)
            }
            Q(_, d, a) => {
                let (n, m) = a.degree(xd, td);
                (d * n.max(m), d * m)
            }
            Add(a, b) => {
                let (an, ad) = a.degree(xd, td);
                let (bn, bd) = b.degree(xd, td);
                ((an + bd).max(bn + ad), ad + bd)
            }
            Neg(a) => a.degree(xd, td),
            Mul(a, b) => {
                let (an, ad) = a.degree(xd, td);
                let (bn, bd) = b.degree(xd, td);
                (an + bn, ad + bd)
            }
            Inv(a) => {
                let (n, d) = a.degree(xd, td);
                (d, n)
            }
            Exp(a, e) => {
                let (n, d) = a.degree(xd, td);
                (e * n, e * d)
            }
        }
    }

    pub fn size(&self) -> usize {
        1 + match self {
            X | C(_) | T(..) => 0,
            P(_, a) | Q(_, _, a) | Neg(a) | Inv(a) | Exp(a, _) => a.size(),
            Add(a, b) | Mul(a, b) => a.size() + b.size(),
        }
    }
}

fn poly_frac(p: &[Fp], (n, d): (Fp, Fp)) -> (Fp, Fp) {
    let deg = poly_degree(p);
    let mut r = Fp::zero();
    for (i, c) in p.iter().enumerate().take(deg + 1) {
        r = r + *c * n.pow(i as u64) * d.pow((deg - i) as u64);
    }
    (r, d.pow(deg as u64))
}

pub fn poly_degree(p: &[Fp]) -> usize {
    p.iter().rposition(|c| !c.is_zero()).unwrap_or(0)
}

pub fn dense(p: &[Fp]) -> DensePolynomial {
    DensePolynomial::new(&p.iter().map(|c| fe(*c)).collect::<Vec<_>>())
}
