use vpbt::{Gen, Nat};
use zkp_u256::U256;

pub fn u(l: [u64; 4]) -> U256 {
    U256::from_limbs(l)
}

pub fn nat(x: &U256) -> Nat {
    Nat::from_limbs(x.as_limbs())
}

pub fn un(n: &Nat) -> U256 {
    U256::from_limbs(n.limbs4())
}

pub fn two256() -> Nat {
    Nat::one().shl(256)
}

pub fn wrap(n: &Nat) -> Nat {
    n.low_bits(256)
}

/// Any 256 bit number, biased to limb boundaries.
pub fn any(g: &mut Gen) -> [u64; 4] {
    if g.one_in(5) {
        g.limbs4_len()
    } else {
        g.limbs4()
    }
}

/// Second operand, often specially related to the first.
pub fn related(g: &mut Gen, a: &[u64; 4]) -> [u64; 4] {
    let neg = |a: &[u64; 4]| Nat::one().shl(256).sub(&Nat::from_limbs(a)).low_bits(256).limbs4();
    match g.below(10) {
        0 => *a,
        1 => neg(a),
        2 => {
            let mut v = *a;
            vpbt::gen::add_small(&mut v, 1);
            v
        }
        3 => {
            let mut v = *a;
            vpbt::gen::sub_small(&mut v, 1);
            v
        }
        4 => {
            // differ in a single limb
            let mut v = *a;
            let i = g.below(4) as usize;
            v[i] = g.limb();
            v
        }
        5 => {
            // complement, so that the sum is all ones, then perturbed by one bit
            let mut v = [!a[0], !a[1], !a[2], !a[3]];
            let i = g.below(4) as usize;
            v[i] ^= 1_u64 << g.below(64);
            v
        }
        _ => any(g),
    }
}

pub fn hex4(l: &[u64; 4]) -> String {
    format!("0x{:016x}_{:016x}_{:016x}_{:016x}", l[3], l[2], l[1], l[0])
}
