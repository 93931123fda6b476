use vpbt::{
    fp::{CurveN, Fe, Prime, StarkP},
    CaseResult, Gen, Nat,
};
use zkp_elliptic_curve::Order;
use zkp_primefield::{FieldElement, Parameters, PrimeField};
use zkp_u256::U256;

/// Pairs a field of the code under test with the oracle's field.
pub trait Pair: 'static + Copy {
    type P: Parameters<UInt = U256> + std::fmt::Debug + Clone + Eq;
    type O: Prime;
    const NAME: &'static str;
    /// Prime factors of p - 1, with multiplicity in the exponent
    fn factors() -> Vec<(Nat, usize)>;
}

#[derive(Copy, Clone)]
pub struct Base;
impl Pair for Base {
    type O = StarkP;
    type P = zkp_primefield_proth::Proth;

    const NAME: &'static str = "base";

    fn factors() -> Vec<(Nat, usize)> {
        vec![
            (Nat::from_u64(2), 192),
            (Nat::from_u64(5), 1),
            (Nat::from_u64(7), 1),
            (Nat::from_u64(98_714_381), 1),
            (Nat::from_u64(166_848_103), 1),
        ]
    }
}

/// The parameter type of `FieldElement` is not exported; recover it.
pub mod zkp_primefield_proth {
    pub trait Unwrap {
        type P;
    }
    impl<P: zkp_primefield::Parameters> Unwrap for zkp_primefield::PrimeField<P> {
        type P = P;
    }
    pub type Proth = <zkp_primefield::FieldElement as Unwrap>::P;
}

#[derive(Copy, Clone)]
pub struct Scalar;
impl Pair for Scalar {
    type O = CurveN;
    type P = Order;

    const NAME: &'static str = "scalar";

    fn factors() -> Vec<(Nat, usize)> {
        vec![
            (Nat::from_u64(2), 1),
            (Nat::from_u64(3), 1),
            (Nat::from_u64(1_481_071), 1),
            (Nat::from_u64(74_436_419), 1),
            (Nat::from_dec("5470365079085120887157193270902448565659295524958143968059153"), 1),
        ]
    }
}

pub type F<K> = PrimeField<<K as Pair>::P>;
pub type O<K> = Fe<<K as Pair>::O>;

/// Element of the code under test for an oracle element.
pub fn f<K: Pair>(x: &O<K>) -> F<K> {
    PrimeField::from_montgomery(U256::from_limbs(x.mont()))
}

pub fn fe(x: &vpbt::Fp) -> FieldElement {
    FieldElement::from_montgomery(U256::from_limbs(x.mont()))
}

/// Compare with the oracle: same residue and reduced representation.
pub fn same<K: Pair>(got: &F<K>, want: &O<K>, what: &str) -> CaseResult {
    let limbs = *got.uint.as_limbs();
    if limbs == want.mont() {
        Ok(())
    } else {
        let reduced = Nat::from_limbs(&limbs) < O::<K>::modulus();
        vpbt::fail(format!(
            "{} ({} field): stored {:x?} ({}), expected {:x?} (value {:?})",
            what,
            K::NAME,
            limbs,
            if reduced { "reduced" } else { "NOT REDUCED" },
            want.mont(),
            want
        ))
    }
}

pub fn nat(x: &U256) -> Nat {
    Nat::from_limbs(x.as_limbs())
}

pub fn un(n: &Nat) -> U256 {
    U256::from_limbs(n.limbs4())
}

/// A number below p, biased to the boundaries.
pub fn below_p<P: Prime>(g: &mut Gen) -> [u64; 4] {
    let p = Nat::from_limbs(&P::P);
    match g.below(8) {
        0 => Nat::from_u64(g.below(5)).limbs4(),
        1 => p.sub(&Nat::from_u64(g.below(5) + 1)).limbs4(),
        2 => {
            let h = p.shr(1).sub(&Nat::from_u64(2));
            h.add(&Nat::from_u64(g.below(5))).limbs4()
        }
        3 => {
            let l = g.limbs4_len();
            Nat::from_limbs(&l).rem(&p).limbs4()
        }
        4 => {
            // modulus with one limb changed
            let mut l = P::P;
            let i = g.below(4) as usize;
            l[i] = g.limb();
            Nat::from_limbs(&l).rem(&p).limbs4()
        }
        _ => Nat::from_limbs(&g.limbs4()).rem(&p).limbs4(),
    }
}

/// Any element; the boundary values appear as residues or as internal words.
pub fn elem<P: Prime>(g: &mut Gen) -> Fe<P> {
    if g.bool() {
        Fe::from_mont(below_p::<P>(g))
    } else {
        Fe::from_limbs(below_p::<P>(g))
    }
}

/// Second operand, often such that a sum, difference, product or quotient is
/// next to zero or p.
pub fn related<P: Prime>(g: &mut Gen, a: &Fe<P>) -> Fe<P> {
    match g.below(10) {
        0 => *a,
        1 => a.neg(),
        2 => *a + Fe::from_mont(near::<P>(g)),
        3 => a.neg() + Fe::from_mont(near::<P>(g)),
        4 => Fe::from_mont(near::<P>(g)) * a.inv(),
        5 => *a * Fe::from_mont(near::<P>(g)).inv(),
        _ => elem(g),
    }
}

fn near<P: Prime>(g: &mut Gen) -> [u64; 4] {
    let d = g.below(4);
    if g.bool() {
        [d, 0, 0, 0]
    } else {
        let mut l = P::P;
        vpbt::gen::sub_small(&mut l, d + 1);
        l
    }
}
