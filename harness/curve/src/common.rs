//! Oracle for the STARK curve y^2 = x^3 + x + beta, over the engine's own field.
use std::sync::OnceLock;
use vpbt::{fp::Fn, CaseResult, Fp, Gen, Nat};
use zkp_elliptic_curve::{Affine, Jacobian, ScalarFieldElement};
use zkp_primefield::{FieldElement, SquareRoot};
use zkp_u256::U256;

pub type Pt = Option<(Fp, Fp)>;

fn hex(s: &str) -> Fp {
    Fp::from_nat(&Nat::from_hex(s))
}

pub fn beta() -> Fp {
    static B: OnceLock<Fp> = OnceLock::new();
    *B.get_or_init(|| hex("06f21413efbe40de150e596d72f7a8c5609ad26c15c915c1f4cdfcb99cee9e89"))
}

pub fn generator() -> Pt {
    static G: OnceLock<(Fp, Fp)> = OnceLock::new();
    Some(*G.get_or_init(|| {
        (
            hex("01ef15c18599971b7beced415a40f0c7deacfd9b0d1819e03d723d8bc943cfca"),
            hex("005668060aa49730b7be4801df46ec62de53ecd11abe43a32873000c36e8dc1f"),
        )
    }))
}

pub fn on_curve(p: &Pt) -> bool {
    p.map_or(true, |(x, y)| y * y == x * x * x + x + beta())
}

pub fn neg(p: &Pt) -> Pt {
    p.map(|(x, y)| (x, y.neg()))
}

/// Chord and tangent, straight from the textbook.
pub fn add(a: &Pt, b: &Pt) -> Pt {
    let ((x1, y1), (x2, y2)) = match (a, b) {
        (None, _) => return *b,
        (_, None) => return *a,
        (Some(p), Some(q)) => (*p, *q),
    };
    let m = if x1 == x2 {
        if y1 != y2 || y1.is_zero() {
            return None;
        }
        (Fp::from_u64(3) * x1 * x1 + Fp::one()) * (y1 + y1).inv()
    } else {
        (y2 - y1) * (x2 - x1).inv()
    };
    let x = m * m - x1 - x2;
    Some((x, m * (x1 - x) - y1))
}

/// Homogeneous coordinates with the complete addition law of Renes, Costello
/// and Batina: no exceptional cases on a curve of odd order.
#[derive(Copy, Clone)]
pub struct Hom(Fp, Fp, Fp);

impl Hom {
    pub fn from(p: &Pt) -> Hom {
        match p {
            None => Hom(Fp::zero(), Fp::one(), Fp::zero()),
            Some((x, y)) => Hom(*x, *y, Fp::one()),
        }
    }

    pub fn to(self) -> Pt {
        if self.2.is_zero() {
            None
        } else {
            let i = self.2.inv();
            Some((self.0 * i, self.1 * i))
        }
    }

    pub fn add(self, o: Hom) -> Hom {
        let b3 = beta() + beta() + beta();
        let (x1, y1, z1) = (self.0, self.1, self.2);
        let (x2, y2, z2) = (o.0, o.1, o.2);
        let xx = x1 * x2;
        let yy = y1 * y2;
        let zz = z1 * z2;
        let xy = x1 * y2 + x2 * y1;
        let xz = x1 * z2 + x2 * z1;
        let yz = y1 * z2 + y2 * z1;
        let t = xz + b3 * zz;
        let u = xx + b3 * xz - zz;
        let v = xx + xx + xx + zz;
        Hom(xy * (yy - t) - yz * u, v * u + (yy + t) * (yy - t), yz * (yy + t) + xy * v)
    }
}

pub fn mul(k: &Fn, p: &Pt) -> Pt {
    let k = k.to_nat();
    let b = Hom::from(p);
    let mut r = Hom::from(&None);
    for i in (0..k.bits()).rev() {
        r = r.add(r);
        if k.bit(i) {
            r = r.add(b);
        }
    }
    r.to()
}

pub fn fe(x: &Fp) -> FieldElement {
    FieldElement::from_montgomery(U256::from_limbs(x.mont()))
}

pub fn fp(x: &FieldElement) -> Fp {
    Fp::from_mont(*x.as_montgomery().as_limbs())
}

pub fn sc(x: &Fn) -> ScalarFieldElement {
    ScalarFieldElement::from_montgomery(U256::from_limbs(x.mont()))
}

pub fn fnn(x: &ScalarFieldElement) -> Fn {
    Fn::from_mont(*x.as_montgomery().as_limbs())
}

pub fn aff(p: &Pt) -> Affine {
    match p {
        None => Affine::Zero,
        Some((x, y)) => Affine::Point { x: fe(x), y: fe(y) },
    }
}

/// Jacobian representation of the point with the given non-zero scaling.
pub fn jac(p: &Pt, z: &Fp) -> Jacobian {
    let (z2, z3) = (*z * *z, *z * *z * *z);
    match p {
        None => Jacobian { x: fe(&z2), y: fe(&z3), z: fe(&Fp::zero()) },
        Some((x, y)) => Jacobian { x: fe(&(*x * z2)), y: fe(&(*y * z3)), z: fe(z) },
    }
}

pub fn pt(a: &Affine) -> Pt {
    match a {
        Affine::Zero => None,
        Affine::Point { x, y } => Some((fp(x), fp(y))),
    }
}

/// The point a Jacobian triple stands for.
pub fn ptj(j: &Jacobian) -> Pt {
    let z = fp(&j.z);
    if z.is_zero() {
        None
    } else {
        let i = z.inv();
        Some((fp(&j.x) * i * i, fp(&j.y) * i * i * i))
    }
}

pub fn same(got: &Pt, want: &Pt, what: &str) -> CaseResult {
    if got == want {
        Ok(())
    } else {
        vpbt::fail(format!("{}: code gives {:?}, oracle gives {:?}", what, got, want))
    }
}

/// Points with equal y coordinate and distinct x, and the generator's first
/// multiples.
pub struct Pool {
    pub multiples: Vec<Pt>,
    pub same_y:    Vec<(Pt, Pt)>,
}

pub fn sqrt(x: &Fp) -> Option<Fp> {
    // search tool only: the result is checked
    let r = fp(&fe(x).square_root()?);
    if r * r == *x {
        Some(r)
    } else {
        None
    }
}

pub fn pool() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| {
        let mut multiples = vec![None];
        for i in 0..64 {
            let n = add(&multiples[i], &generator());
            assert!(on_curve(&n));
            multiples.push(n);
        }
        // x2^2 + x1 x2 + x1^2 + 1 = 0
        let mut same_y = vec![];
        for m in multiples.iter().skip(1) {
            if let Some((x1, y)) = m {
                let d = (Fp::from_u64(3) * *x1 * *x1 + Fp::from_u64(4)).neg();
                if let Some(s) = sqrt(&d) {
                    let x2 = (s - *x1) * Fp::from_u64(2).inv();
                    let q = Some((x2, *y));
                    if on_curve(&q) && x2 != *x1 {
                        same_y.push((*m, q));
                    }
                }
            }
        }
        Pool { multiples, same_y }
    })
}

/// A scalar, biased to the edges and to patterns of window digits.
pub fn scalar(g: &mut Gen) -> Fn {
    let n = Fn::modulus();
    let l = match g.below(9) {
        0 => return Fn::from_u64(g.below(70)),
        1 => return Fn::from_u64(g.below(70)).neg(),
        2 => Nat::from_limbs(&g.limbs4_len()),
        3 => {
            // repeated window pattern
            let w = *g.pick(&[4_usize, 5, 6, 7, 8]);
            let d = g.below(1 << w);
            let mut v = Nat::zero();
            for i in 0..(256 / w) {
                v = v.add(&Nat::from_u64(d).shl(i * w));
            }
            v.low_bits(251)
        }
        4 => {
            // near half of n
            n.shr(1).add(&Nat::from_u64(g.below(5))).sub(&Nat::from_u64(2))
        }
        5 => {
            // runs of ones and zeros
            let mut v = Nat::zero();
            let mut i = 0;
            while i < 252 {
                let z = g.usize_in(0, 20);
                let o = g.usize_in(1, 20);
                let ones = Nat::one().shl(o).sub(&Nat::one());
                v = v.add(&ones.shl(i + z));
                i += z + o;
            }
            v.low_bits(252)
        }
        _ => Nat::from_limbs(&g.limbs4()),
    };
    Fn::from_nat(&l)
}

/// A curve point.
pub fn point(g: &mut Gen) -> Pt {
    let p = pool();
    match g.below(6) {
        0 => p.multiples[g.below(6) as usize],
        1 => p.multiples[g.below(65) as usize],
        2 if !p.same_y.is_empty() => {
            let (a, b) = *g.pick(&p.same_y);
            if g.bool() {
                a
            } else {
                b
            }
        }
        3 => {
            let a = neg(&p.multiples[g.below(65) as usize]);
            a
        }
        _ => mul(&scalar(g), &generator()),
    }
}

/// Second point, often specially related to the first.
pub fn related(g: &mut Gen, a: &Pt) -> Pt {
    match g.below(9) {
        0 => *a,
        1 => neg(a),
        2 => None,
        3 => add(a, a),
        4 => neg(&add(a, a)),
        5 => add(&add(a, a), a),
        6 => {
            // same y coordinate, if there is such a point
            if let Some((x1, y)) = a {
                let d = (Fp::from_u64(3) * *x1 * *x1 + Fp::from_u64(4)).neg();
                if let Some(s) = sqrt(&d) {
                    let x2 = (s - *x1) * Fp::from_u64(2).inv();
                    let q = Some((x2, *y));
                    if on_curve(&q) {
                        return if g.bool() { q } else { neg(&q) };
                    }
                }
            }
            point(g)
        }
        _ => point(g),
    }
}

pub fn scaling(g: &mut Gen) -> Fp {
    let z = match g.below(4) {
        0 => Fp::one(),
        1 => Fp::from_u64(g.below(4) + 1).neg(),
        _ => Fp::from_nat(&Nat::from_limbs(&g.limbs4())),
    };
    if z.is_zero() {
        Fp::one()
    } else {
        z
    }
}
