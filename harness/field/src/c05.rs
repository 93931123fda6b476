//! C05: roots of unity, generator and square roots.
use super::common::*;
use vpbt::{ensure, ensure_eq, CaseResult, Facet, Gen, Nat, Property};
use zkp_primefield::*;

/// A divisor of p - 1 with its prime factors.
fn divisor<K: Pair>(g: &mut Gen) -> (Nat, Vec<Nat>) {
    let mut d = Nat::one();
    let mut primes = vec![];
    let only_two = g.bool();
    for (i, (q, k)) in K::factors().iter().enumerate() {
        let e = if i == 0 {
            // uniform over the powers of two
            g.usize_in(0, *k)
        } else if only_two {
            0
        } else {
            g.usize_in(0, *k)
        };
        if e > 0 {
            primes.push(q.clone());
        }
        for _ in 0..e {
            d = d.mul(q);
        }
    }
    (d, primes)
}

fn roots<K: Pair>(g: &mut Gen) -> CaseResult {
    let order = O::<K>::modulus().sub(&Nat::one());
    let (d, primes) = divisor::<K>(g);
    g.describe(|| format!("{} order {}", K::NAME, d.to_hex()));
    if d.bits() > 1 {
        g.nontrivial();
    }
    let r = match F::<K>::root(&un(&d)) {
        Some(r) => r,
        None => return vpbt::fail(format!("no root of order {}", d.to_hex())),
    };
    let limbs = *r.uint.as_limbs();
    ensure!(Nat::from_limbs(&limbs) < O::<K>::modulus(), "root of order {} is not reduced", d.to_hex());
    let o = O::<K>::from_mont(limbs);
    ensure!(o.pow_nat(&d) == O::<K>::one(), "root({}) to its order is not one", d.to_hex());
    for q in &primes {
        let (e, _) = d.div_rem(q);
        ensure!(
            o.pow_nat(&e) != O::<K>::one(),
            "root({}) has a smaller order, dividing {}",
            d.to_hex(),
            e.to_hex()
        );
    }
    // consistency with the root for a larger order
    for (q, _) in K::factors() {
        let bigger = d.mul(&q);
        if order.rem(&bigger).is_zero() {
            match F::<K>::root(&un(&bigger)) {
                Some(b) => same::<K>(&r, &O::<K>::from_mont(*b.uint.as_limbs()).pow_nat(&q), "root(d) == root(dq)^q")?,
                None => return vpbt::fail(format!("no root of order {}", bigger.to_hex())),
            }
        }
    }
    if d.bits() <= 64 {
        match F::<K>::root(d.low_u64() as usize) {
            Some(s) => same::<K>(&s, &o, "root(usize)")?,
            None => return vpbt::fail(format!("no root of order {}_usize", d.to_hex())),
        }
    }
    Ok(())
}

fn roots_both(g: &mut Gen) -> CaseResult {
    if g.one_in(4) {
        roots::<Scalar>(g)
    } else {
        roots::<Base>(g)
    }
}

/// Orders that do not divide p - 1 have no root; small orders exhaustively.
fn no_roots<K: Pair>(g: &mut Gen) -> CaseResult {
    let order = O::<K>::modulus().sub(&Nat::one());
    let n = match g.below(6) {
        0 => Nat::from_u64(1 + g.below(4096)),
        1 => divisor::<K>(g).0.add(&Nat::from_u64(1 + g.below(3))),
        2 => {
            let d = divisor::<K>(g).0;
            if d.bits() > 1 {
                d.sub(&Nat::one())
            } else {
                d
            }
        }
        3 => {
            let d = divisor::<K>(g).0.mul(&Nat::from_u64(*g.pick(&[2, 3, 5, 7, 11, 98_714_381])));
            if d.bits() > 256 {
                Nat::from_u64(3)
            } else {
                d
            }
        }
        4 => Nat::from_limbs(&g.limbs4_len()),
        _ => Nat::from_limbs(&g.limbs4()),
    };
    if n.is_zero() {
        return Ok(());
    }
    g.describe(|| format!("{} order {}", K::NAME, n.to_hex()));
    let exists = order.rem(&n).is_zero();
    g.label_if(exists, "divides");
    g.nontrivial();
    ensure_eq!(F::<K>::root(&un(&n)).is_some(), exists, "root({}) exists", n.to_hex());
    if n.bits() <= 64 {
        ensure_eq!(F::<K>::root(n.low_u64() as usize).is_some(), exists, "root({}_usize) exists", n.to_hex());
    }
    Ok(())
}

fn no_roots_both(g: &mut Gen) -> CaseResult {
    if g.one_in(4) {
        no_roots::<Scalar>(g)
    } else {
        no_roots::<Base>(g)
    }
}

fn generator<K: Pair>(g: &mut Gen) -> CaseResult {
    let gen = F::<K>::generator();
    let o = O::<K>::from_mont(*gen.uint.as_limbs());
    let order = O::<K>::modulus().sub(&Nat::one());
    let facs = K::factors();
    let i = g.below(facs.len() as u64) as usize;
    let q = &facs[i].0;
    g.describe(|| format!("{} factor {}", K::NAME, q.to_dec()));
    g.nontrivial();
    ensure!(o.pow_nat(&order) == O::<K>::one(), "generator to the group order");
    ensure!(
        o.pow_nat(&order.div_rem(q).0) != O::<K>::one(),
        "generator lies in the subgroup of index {}",
        q.to_dec()
    );
    Ok(())
}

fn generators(g: &mut Gen) -> CaseResult {
    generator::<Scalar>(g)?;
    generator::<Base>(g)
}

fn squares<K: Pair>(g: &mut Gen) -> CaseResult {
    let p = O::<K>::modulus();
    let order = p.sub(&Nat::one());
    let half = order.shr(1);
    let (two, k) = K::factors()[0].clone();
    debug_assert!(two == Nat::from_u64(2));
    let odd = order.shr(k);
    // 3 is a non-residue in the base field and 7 or other small numbers in the
    // scalar field: find one by Euler's criterion
    let mut nr = O::<K>::from_u64(2);
    while nr.pow_nat(&half) == O::<K>::one() {
        nr = nr + O::<K>::one();
    }
    let a = match g.below(5) {
        0 => elem::<K::O>(g),
        1 => elem::<K::O>(g).square(),
        2 => {
            // element whose order has exactly 2^j as its even part
            let j = g.usize_in(0, k);
            let c = nr.pow_nat(&odd); // order 2^k
            let mut e = c;
            for _ in 0..k - j {
                e = e.square();
            }
            // an element of odd order
            let mut o = elem::<K::O>(g);
            for _ in 0..k {
                o = o.square();
            }
            e * o
        }
        3 => {
            // elements of order a power of two: powers of the 2^k-th root
            let c = nr.pow_nat(&odd);
            c.pow_nat(&Nat::from_limbs(&g.limbs4_len()))
        }
        _ => O::<K>::from_u64(g.below(50)),
    };
    g.describe(|| format!("{} a={:?}", K::NAME, a));
    let residue = a.is_zero() || a.pow_nat(&half) == O::<K>::one();
    g.label_if(residue, "residue");
    g.label_if(!residue, "non-residue");
    if !a.is_zero() && a != O::<K>::one() {
        g.nontrivial();
    }
    let x = f::<K>(&a);
    ensure_eq!(x.is_quadratic_residue(), residue, "is_quadratic_residue");
    match x.square_root() {
        Some(r) => {
            ensure!(residue, "square root {:?} of a non-residue", r);
            let l = *r.uint.as_limbs();
            ensure!(Nat::from_limbs(&l) < p, "square root is not reduced");
            ensure_eq!(O::<K>::from_mont(l).square(), a, "square_root squared");
        }
        None => ensure!(!residue, "no square root of a residue"),
    }
    Ok(())
}

fn squares_both(g: &mut Gen) -> CaseResult {
    if g.one_in(4) {
        squares::<Scalar>(g)
    } else {
        squares::<Base>(g)
    }
}

pub fn property() -> Property {
    Property {
        id: "C05",
        rule: "roots: order above one; absent roots and generator: every case; squares: element other than zero and one",
        assumptions: &["order zero is outside the property", "the factorisations of both group orders (from sympy) are right"],
        facets: vec![
            Facet::new("roots", 100_000, 200_000, roots_both),
            Facet::new("absent-roots", 300_000, 1_000_000, no_roots_both),
            Facet::new("generator", 64, 200, generators),
            Facet::new("square-root", 100_000, 300_000, squares_both),
        ],
    }
}
