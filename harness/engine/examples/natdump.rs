//! Prints random oracle computations, compared with Python's integers by
//! check_nat.py (a development-time check of the oracle itself).
use vpbt::{gen::Gen, Nat};
use vpbt::fp::{CurveN, Fe, Prime, StarkP};

fn field<P: Prime>(g: &mut Gen) {
    let m = vpbt::Mod::new(Nat::from_limbs(&P::P));
    let a = m.red(&Nat::from_limbs(&g.limbs4()));
    let b = m.red(&Nat::from_limbs(&g.limbs4()));
    let e = Nat::from_limbs(&g.limbs4_len());
    let (x, y) = (Fe::<P>::from_nat(&a), Fe::<P>::from_nat(&b));
    assert!(x.to_nat() == a && Nat::from_limbs(&x.mont()) == m.mul(&a, &m.red(&Nat::one().shl(256))));
    assert!((x + y).to_nat() == m.add(&a, &b) && (x - y).to_nat() == m.sub(&a, &b));
    assert!((x * y).to_nat() == m.mul(&a, &b) && x.neg().to_nat() == m.neg(&a));
    assert!(x.pow_nat(&e).to_nat() == m.pow(&a, &e));
    assert!(a.is_zero() || (x.inv() * x) == Fe::<P>::one());
}

fn main() {
    for i in 0..4000_u64 {
        let mut g = Gen::random(i);
        field::<StarkP>(&mut g);
        field::<CurveN>(&mut g);
        let a = Nat::from_limbs(&g.limbs4());
        let b = Nat::from_limbs(&g.limbs4_len());
        let c = a.mul(&Nat::from_limbs(&g.limbs4()));
        let sh = g.below(300) as usize;
        let mut o = vec![a.to_dec(), b.to_dec(), c.to_dec(), sh.to_string()];
        o.push(a.add(&b).to_dec());
        o.push(a.mul(&b).to_dec());
        o.push(a.shl(sh).to_dec());
        o.push(a.shr(sh).to_dec());
        o.push(a.low_bits(sh).to_dec());
        o.push(a.bits().to_string());
        o.push(a.to_hex());
        if b.is_zero() {
            o.push("x".into());
        } else {
            let (q, r) = c.div_rem(&b);
            assert!(c.div_rem_slow(&b) == (q.clone(), r.clone()));
            o.push(format!("{} {} {}", q.to_dec(), r.to_dec(), a.gcd(&b).to_dec()));
            if i % 16 == 0 {
                o.push(a.pow_mod(&c, &b).to_dec());
            } else {
                o.push("x".into());
            }
            o.push(a.inv_mod(&b).map_or("none".into(), |x| x.to_dec()));
        }
        println!("{}", o.join(","));
    }
}
