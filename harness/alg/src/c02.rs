//! C02: division, gcd, modular inverses and products, Montgomery arithmetic.
use super::common::*;
use vpbt::{ensure, ensure_eq, CaseResult, Facet, Gen, Nat, Property};
use zkp_u256::*;

/// Dividend and divisor that provoke quotient estimation errors:
/// n = q * d + r, with structured q, d and r (r possibly d - 1).
fn dividend_divisor(g: &mut Gen) -> ([u64; 4], [u64; 4]) {
    match g.below(5) {
        0 => {
            let a = any(g);
            let b = related(g, &a);
            (a, b)
        }
        1 => (any(g), any(g)),
        2 => {
            // high part of the dividend equal to the high part of the divisor
            let k = g.usize_in(1, 4);
            let mut d = [0_u64; 4];
            for l in d.iter_mut().take(k) {
                *l = g.limb();
            }
            let mut n = [0_u64; 4];
            let off = g.usize_in(0, 4 - k);
            for i in 0..4 {
                n[i] = if i >= off && i < off + k { d[i - off] } else if i < off { g.limb() } else { 0 };
            }
            if g.bool() {
                vpbt::gen::sub_small(&mut n, 1);
            }
            (n, d)
        }
        _ => {
            let dl = g.usize_in(1, 4);
            let mut d = [0_u64; 4];
            for l in d.iter_mut().take(dl) {
                *l = g.limb();
            }
            let dn = Nat::from_limbs(&d);
            if dn.is_zero() {
                return (any(g), d);
            }
            let mut q = [0_u64; 4];
            for l in q.iter_mut().take(5 - dl) {
                *l = g.limb();
            }
            let qn = Nat::from_limbs(&q);
            let r = match g.below(4) {
                0 => Nat::zero(),
                1 => dn.sub(&Nat::one()),
                _ => Nat::from_limbs(&any(g)).rem(&dn),
            };
            let n = qn.mul(&dn).add(&r);
            (n.low_bits(256).limbs4(), d)
        }
    }
}

fn division(g: &mut Gen) -> CaseResult {
    let (nl, dl) = dividend_divisor(g);
    let w = g.limb();
    let (n, d) = (u(nl), u(dl));
    g.describe(|| format!("n={} d={} w={:#x}", hex4(&nl), hex4(&dl), w));
    let nn = nat(&n);
    if w == 0 {
        ensure!(DivRem::<u64>::div_rem(&n, 0).is_none(), "division by the word 0 gives a value");
    } else {
        let (q, r) = nn.div_rem(&Nat::from_u64(w));
        ensure_eq!(DivRem::<u64>::div_rem(&n, w), Some((un(&q), r.low_u64())), "div_rem by word {:#x}", w);
    }
    if d.is_zero() {
        g.label("zero divisor");
        ensure!(DivRem::<&U256>::div_rem(&n, &d).is_none(), "division by 0 gives a value");
        return Ok(());
    }
    if n >= d && dl[1..] != [0, 0, 0] {
        g.nontrivial();
        g.label("multi-limb divisor, non-zero quotient");
    }
    let (q, r) = nn.div_rem(&nat(&d));
    let (q, r) = (un(&q), un(&r));
    ensure_eq!(DivRem::<&U256>::div_rem(&n, &d), Some((q.clone(), r.clone())), "div_rem");
    ensure_eq!(&n / &d, q, "&n / &d");
    ensure_eq!(n.clone() / &d, q, "n / &d");
    ensure_eq!(&n / d.clone(), q, "&n / d");
    ensure_eq!(n.clone() / d.clone(), q, "n / d");
    ensure_eq!(&n % &d, r, "&n % &d");
    ensure_eq!(n.clone() % &d, r, "n % &d");
    ensure_eq!(&n % d.clone(), r, "&n % d");
    ensure_eq!(n.clone() % d.clone(), r, "n % d");
    let mut t = n.clone();
    t /= &d;
    ensure_eq!(t, q, "/=");
    let mut t = n.clone();
    t /= d.clone();
    ensure_eq!(t, q, "/= by value");
    let mut t = n.clone();
    t %= &d;
    ensure_eq!(t, r, "%=");
    let mut t = n;
    t %= d;
    ensure_eq!(t, r, "%= by value");
    Ok(())
}

fn mulmod(g: &mut Gen) -> CaseResult {
    let (al, ml) = dividend_divisor(g);
    let bl = match g.below(4) {
        0 => related(g, &ml),
        1 => related(g, &al),
        _ => any(g),
    };
    if ml == [0; 4] {
        return Ok(());
    }
    let (a, b, m) = (u(al), u(bl), u(ml));
    g.describe(|| format!("a={} b={} m={}", hex4(&al), hex4(&bl), hex4(&ml)));
    let p = nat(&a).mul(&nat(&b));
    if p >= nat(&m) {
        g.nontrivial();
    }
    ensure_eq!(a.mulmod(&b, &m), un(&p.rem(&nat(&m))), "mulmod");
    Ok(())
}

/// Pair built from the partial quotients of its continued fraction, so that
/// every quotient size occurs at every stage of the Euclidean algorithm.
fn euclid_pair(g: &mut Gen) -> (Nat, Nat) {
    let mut a = match g.below(4) {
        0 => Nat::from_u64(g.limb().max(1)),
        1 => Nat::from_u64(1 + g.below(1000)),
        _ => Nat::one(),
    };
    let mut b = Nat::zero();
    let style = g.below(5);
    loop {
        let q = match style {
            0 => Nat::one(),
            1 => Nat::from_u64(1 + g.below(3)),
            2 => Nat::from_u64(match g.below(8) {
                0 => 1 << g.below(40),
                1 => (1 << 32) - 1 + g.below(3),
                2 => g.limb().max(1),
                _ => 1 + g.below(24),
            }),
            3 => Nat::from_u64(g.limb().max(1)),
            _ => match g.below(12) {
                0 => Nat::from_limbs(&g.limbs4_len()).add(&Nat::one()),
                1 => Nat::one().shl(g.below(130) as usize),
                _ => Nat::from_u64(1 + g.below(40)),
            },
        };
        let n = q.mul(&a).add(&b);
        if n.bits() > 256 {
            break;
        }
        b = a;
        a = n;
        if g.one_in(150) {
            break;
        }
    }
    (a, b)
}

fn gcd(g: &mut Gen) -> CaseResult {
    let (mut an, mut bn) = match g.below(4) {
        0 => {
            let a = any(g);
            let b = related(g, &a);
            (Nat::from_limbs(&a), Nat::from_limbs(&b))
        }
        1 => {
            // planted common factor
            let f = Nat::from_limbs(&g.limbs4_len()).add(&Nat::one());
            let room = 256_usize.saturating_sub(f.bits());
            let x = Nat::from_limbs(&any(g)).low_bits(room);
            let y = Nat::from_limbs(&any(g)).low_bits(room);
            (x.mul(&f).low_bits(256), y.mul(&f).low_bits(256))
        }
        _ => euclid_pair(g),
    };
    if g.bool() {
        std::mem::swap(&mut an, &mut bn);
    }
    let (a, b) = (un(&an), un(&bn));
    g.describe(|| format!("a={} b={}", an.to_hex(), bn.to_hex()));
    if an.bits() > 64 && bn.bits() > 64 {
        g.nontrivial();
    }
    let want = an.gcd(&bn);
    ensure_eq!(U256::gcd(&a, &b), un(&want), "gcd");
    let (r, s, t, even) = U256::gcd_extended(&a, &b);
    ensure_eq!(r, un(&want), "gcd_extended");
    // even: gcd = s a - t b, odd: gcd = t b - s a, over the integers
    let (sa, tb) = (nat(&s).mul(&an), nat(&t).mul(&bn));
    let ok = if even { sa == tb.add(&want) } else { tb == sa.add(&want) };
    ensure!(ok, "Bezout identity: gcd={:?} s={:?} t={:?} even={}", r, s, t, even);
    // inverse of b modulo a
    if an > Nat::one() {
        g.label_if(want == Nat::one(), "coprime");
        ensure_eq!(b.inv_mod(&a), bn.rem(&an).inv_mod(&an).map(|x| un(&x)), "inv_mod");
    }
    if bn > Nat::one() {
        ensure_eq!(a.inv_mod(&b), an.rem(&bn).inv_mod(&bn).map(|x| un(&x)), "inv_mod (other way)");
    }
    Ok(())
}

fn ring_inverse(g: &mut Gen) -> CaseResult {
    let mut al = any(g);
    if !g.one_in(8) {
        al[0] |= 1;
    }
    let a = u(al);
    g.describe(|| format!("a={}", hex4(&al)));
    match (&a).inv() {
        None => ensure!(al[0] % 2 == 0, "odd number has no inverse mod 2^256"),
        Some(i) => {
            g.nontrivial();
            ensure!(al[0] % 2 == 1, "even number has an inverse mod 2^256");
            ensure!(wrap(&nat(&a).mul(&nat(&i))) == Nat::one(), "a * inv(a) = 1: inv = {:?}", i);
        }
    }
    Ok(())
}

macro_rules! parameters {
    ($name:ident, $m:expr, $m64:expr, $r1:expr, $r2:expr, $r3:expr) => {
        struct $name;
        impl MontgomeryParameters for $name {
            type UInt = U256;
            const M64: u64 = $m64;
            const MODULUS: U256 = U256::from_limbs($m);
            const R1: U256 = U256::from_limbs($r1);
            const R2: U256 = U256::from_limbs($r2);
            const R3: U256 = U256::from_limbs($r3);
        }
    };
}
include!("moduli.rs");

fn montgomery_with<M: MontgomeryParameters<UInt = U256>>(g: &mut Gen) -> CaseResult {
    let m = nat(&M::MODULUS);
    let residue = |g: &mut Gen| {
        match g.below(6) {
            0 => Nat::from_u64(g.below(3)).rem(&m),
            1 => m.sub(&Nat::from_u64(1 + g.below(3))),
            2 => nat(&M::R1),
            3 => Nat::from_limbs(&g.limbs4_len()).rem(&m),
            _ => Nat::from_limbs(&g.limbs4()).rem(&m),
        }
    };
    let (an, bn) = (residue(g), residue(g));
    let (a, b) = (un(&an), un(&bn));
    g.describe(|| format!("m={} a={} b={}", m.to_hex(), an.to_hex(), bn.to_hex()));
    if an.bits() > 64 && bn.bits() > 64 {
        g.nontrivial();
    }
    let r = two256();
    let ri = r.rem(&m).inv_mod(&m).unwrap();
    let abr = an.mul(&bn).rem(&m).mul(&ri).rem(&m);
    ensure_eq!(a.mul_redc::<M>(&b), un(&abr), "mul_redc");
    ensure_eq!(a.mul_redc_inline::<M>(&b), un(&abr), "mul_redc_inline");
    let aar = an.mul(&an).rem(&m).mul(&ri).rem(&m);
    ensure_eq!(a.square_redc::<M>(), un(&aar), "square_redc");
    ensure_eq!(a.square_redc_inline::<M>(), un(&aar), "square_redc_inline");
    ensure_eq!(a.mul_mod::<M>(&b), un(&an.mul(&bn).rem(&m)), "mul_mod");
    let am = an.mul(&r).rem(&m);
    ensure_eq!(a.to_montgomery::<M>(), un(&am), "to_montgomery");
    ensure_eq!(to_montgomery_const(&a, &M::MODULUS, M::M64, &M::R2), un(&am), "to_montgomery_const");
    ensure_eq!(un(&am).from_montgomery::<M>(), a, "from_montgomery");
    // any double-width number below m * 2^256
    let lo = any(g);
    let x = an.shl(256).add(&Nat::from_limbs(&lo));
    let want = un(&x.rem(&m).mul(&ri).rem(&m));
    ensure_eq!(U256::redc::<M>(&u(lo), &a), want, "redc of {}", x.to_hex());
    ensure_eq!(U256::redc_inline::<M>(&u(lo), &a), want, "redc_inline");
    // at most one reduction
    let s = an.add(&bn);
    if s.bits() <= 256 {
        ensure_eq!(un(&s).reduce_1::<M>(), un(&s.rem(&m)), "reduce_1");
    }
    // inverse in Montgomery form: a -> a^-1 R^2
    let want = an.inv_mod(&m).map(|i| un(&i.mul(&r).rem(&m).mul(&r).rem(&m)));
    ensure_eq!(a.inv_redc::<M>(), want, "inv_redc");
    Ok(())
}

fn montgomery(g: &mut Gen) -> CaseResult {
    match g.below(6) {
        0 => montgomery_with::<StarkPrime>(g),
        1 => montgomery_with::<StarkOrder>(g),
        2 => montgomery_with::<Bn254>(g),
        3 => montgomery_with::<Ed25519>(g),
        4 => montgomery_with::<Small>(g),
        _ => montgomery_with::<Proth2>(g),
    }
}

pub fn property() -> Property {
    Property {
        id: "C02",
        rule: "a case is non-trivial when the divisor has more than one limb and the quotient is not zero, the product exceeds the modulus, both gcd operands exceed 64 bits, or both Montgomery operands do",
        assumptions: &[
            "oracle: schoolbook integers on 32-bit digits written for this harness and cross-checked with Python",
            "Montgomery parameters are tried for six fixed odd prime moduli below 2^255 (two of Proth form)",
            "inverses are compared for moduli of at least two",
        ],
        facets: vec![
            Facet::new("division", 6_000_000, 20_000_000, division),
            Facet::new("mulmod", 6_000_000, 20_000_000, mulmod),
            Facet::new("gcd", 500_000, 6_000_000, gcd),
            Facet::new("ring-inverse", 1_000_000, 6_000_000, ring_inverse),
            Facet::new("montgomery", 400_000, 4_000_000, montgomery),
        ],
    }
}
