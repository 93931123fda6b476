//! C01: ring arithmetic, bits, shifts and order of 256 bit integers.
use super::common::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vpbt::{ensure, ensure_eq, CaseResult, Facet, Gen, Nat, Property};
use zkp_u256::*;

fn additive(g: &mut Gen) -> CaseResult {
    let al = any(g);
    let bl = related(g, &al);
    let (a, b) = (u(al), u(bl));
    let (an, bn) = (nat(&a), nat(&b));
    g.describe(|| format!("a={} b={}", hex4(&al), hex4(&bl)));
    let sum = an.add(&bn);
    let carry = sum.bits() == 257;
    if carry || an < bn {
        g.nontrivial();
    }
    g.label_if(carry, "carry out");
    g.label_if(an < bn, "borrow out");
    let s = un(&wrap(&sum));
    let d = un(&wrap(&an.add(&two256()).sub(&bn)));
    let rd = un(&wrap(&bn.add(&two256()).sub(&an)));
    let neg = un(&wrap(&two256().sub(&an)));
    // addition, all forms
    ensure_eq!(&a + &b, s, "&a + &b");
    ensure_eq!(a.clone() + &b, s, "a + &b");
    ensure_eq!(&a + b.clone(), s, "&a + b");
    ensure_eq!(a.clone() + b.clone(), s, "a + b");
    let mut t = a.clone();
    t += &b;
    ensure_eq!(t, s, "a += &b");
    let mut t = a.clone();
    t += b.clone();
    ensure_eq!(t, s, "a += b");
    ensure_eq!(AddInline::add_inline(&a, &b), s, "add_inline");
    ensure_eq!(AddInline::add(&a, &b), s, "AddInline::add");
    let mut t = a.clone();
    AddInline::add_assign_inline(&mut t, &b);
    ensure_eq!(t, s, "add_assign_inline");
    let mut t = a.clone();
    AddInline::add_assign(&mut t, &b);
    ensure_eq!(t, s, "AddInline::add_assign");
    let full = (s.clone(), u64::from(carry));
    ensure_eq!(a.add_full_inline(&b), full, "add_full_inline");
    ensure_eq!(a.add_full(&b), full, "add_full");
    let mut t = a.clone();
    let h = t.add_full_assign(&b);
    ensure_eq!((t, h), full, "add_full_assign");
    let mut t = a.clone();
    let h = t.add_full_assign_inline(&b);
    ensure_eq!((t, h), full, "add_full_assign_inline");
    // subtraction
    ensure_eq!(&a - &b, d, "&a - &b");
    ensure_eq!(a.clone() - &b, d, "a - &b");
    ensure_eq!(&a - b.clone(), d, "&a - b");
    ensure_eq!(a.clone() - b.clone(), d, "a - b");
    let mut t = a.clone();
    t -= &b;
    ensure_eq!(t, d, "a -= &b");
    let mut t = a.clone();
    t -= b.clone();
    ensure_eq!(t, d, "a -= b");
    ensure_eq!(SubInline::sub_inline(&a, &b), d, "sub_inline");
    ensure_eq!(SubInline::sub(&a, &b), d, "SubInline::sub");
    let mut t = a.clone();
    SubInline::sub_assign_inline(&mut t, &b);
    ensure_eq!(t, d, "sub_assign_inline");
    let mut t = a.clone();
    SubInline::sub_assign(&mut t, &b);
    ensure_eq!(t, d, "SubInline::sub_assign");
    let full = (d.clone(), u64::from(an < bn));
    ensure_eq!(a.sub_full_inline(&b), full, "sub_full_inline");
    ensure_eq!(a.sub_full(&b), full, "sub_full");
    let mut t = a.clone();
    let h = t.sub_full_assign(&b);
    ensure_eq!((t, h), full, "sub_full_assign");
    let mut t = a.clone();
    let h = t.sub_full_assign_inline(&b);
    ensure_eq!((t, h), full, "sub_full_assign_inline");
    let mut t = a.clone();
    t.sub_from_assign(&b);
    ensure_eq!(t, rd, "sub_from_assign");
    let mut t = a.clone();
    t.sub_from_assign_inline(&b);
    ensure_eq!(t, rd, "sub_from_assign_inline");
    let full = (rd, u64::from(bn < an));
    let mut t = a.clone();
    let h = t.sub_from_full_assign(&b);
    ensure_eq!((t, h), full, "sub_from_full_assign");
    let mut t = a.clone();
    let h = t.sub_from_full_assign_inline(&b);
    ensure_eq!((t, h), full, "sub_from_full_assign_inline");
    // negation
    ensure_eq!(-a.clone(), neg, "-a");
    ensure_eq!(-&a, neg, "-&a");
    ensure_eq!(NegInline::neg_inline(&a), neg, "neg_inline");
    ensure_eq!(NegInline::neg(&a), neg, "NegInline::neg");
    let mut t = a.clone();
    NegInline::neg_assign(&mut t);
    ensure_eq!(t, neg, "neg_assign");
    let mut t = a.clone();
    NegInline::neg_assign_inline(&mut t);
    ensure_eq!(t, neg, "neg_assign_inline");
    Ok(())
}

fn multiplicative(g: &mut Gen) -> CaseResult {
    let al = any(g);
    let bl = related(g, &al);
    let cl = any(g);
    let w = g.limb();
    let (a, b, c) = (u(al), u(bl), u(cl));
    let (an, bn, cn) = (nat(&a), nat(&b), nat(&c));
    g.describe(|| format!("a={} b={} c={} w={:#x}", hex4(&al), hex4(&bl), hex4(&cl), w));
    let p = an.mul(&bn);
    let sq = an.mul(&an);
    let pw = an.mul(&Nat::from_u64(w));
    if p.bits() > 256 {
        g.nontrivial();
        g.label("product over 256 bits");
    }
    let lo = un(&wrap(&p));
    let hi = un(&p.shr(256));
    ensure_eq!(&a * &b, lo, "&a * &b");
    ensure_eq!(a.clone() * &b, lo, "a * &b");
    ensure_eq!(&a * b.clone(), lo, "&a * b");
    ensure_eq!(a.clone() * b.clone(), lo, "a * b");
    let mut t = a.clone();
    t *= &b;
    ensure_eq!(t, lo, "a *= &b");
    let mut t = a.clone();
    t *= b.clone();
    ensure_eq!(t, lo, "a *= b");
    ensure_eq!(MulInline::<&U256>::mul_inline(&a, &b), lo, "mul_inline");
    let mut t = a.clone();
    MulInline::<&U256>::mul_assign_inline(&mut t, &b);
    ensure_eq!(t, lo, "mul_assign_inline");
    let full = (lo, hi);
    ensure_eq!(MulFullInline::<&U256>::mul_full_inline(&a, &b), full, "mul_full_inline");
    ensure_eq!(MulFullInline::<&U256>::mul_full(&a, &b), full, "mul_full");
    let mut t = a.clone();
    let h = MulFullInline::<&U256>::mul_full_assign_inline(&mut t, &b);
    ensure_eq!((t, h), full, "mul_full_assign_inline");
    // squares
    let full = (un(&wrap(&sq)), un(&sq.shr(256)));
    ensure_eq!(a.square(), full.0, "square");
    ensure_eq!(a.square_inline(), full.0, "square_inline");
    let mut t = a.clone();
    t.square_assign();
    ensure_eq!(t, full.0, "square_assign");
    let mut t = a.clone();
    t.square_assign_inline();
    ensure_eq!(t, full.0, "square_assign_inline");
    ensure_eq!(a.square_full(), full, "square_full");
    ensure_eq!(a.square_full_inline(), full, "square_full_inline");
    let mut t = a.clone();
    let h = t.square_full_assign();
    ensure_eq!((t, h), full, "square_full_assign");
    let mut t = a.clone();
    let h = t.square_full_assign_inline();
    ensure_eq!((t, h), full, "square_full_assign_inline");
    // times a word
    let lo = un(&wrap(&pw));
    let hi = pw.shr(256).low_u64();
    ensure_eq!(&a * w, lo, "&a * w");
    ensure_eq!(a.clone() * w, lo, "a * w");
    ensure_eq!(w * &a, lo, "w * &a");
    ensure_eq!(w * a.clone(), lo, "w * a");
    let mut t = a.clone();
    t *= w;
    ensure_eq!(t, lo, "a *= w");
    ensure_eq!(MulInline::<u64>::mul_inline(&a, w), lo, "mul_inline(u64)");
    ensure_eq!(MulFullInline::<u64>::mul_full_inline(&a, w), (lo.clone(), hi), "mul_full_inline(u64)");
    ensure_eq!(MulFullInline::<u64>::mul_full(&a, w), (lo, hi), "mul_full(u64)");
    // fused
    let f = un(&wrap(&p.add(&cn)));
    ensure_eq!((&a).mul_add(&b, &c), f, "mul_add");
    let mut t = a.clone();
    t.mul_add_assign(&b, &c);
    ensure_eq!(t, f, "mul_add_assign");
    Ok(())
}

fn powers_sums(g: &mut Gen) -> CaseResult {
    let al = any(g);
    let a = u(al);
    let e = match g.below(3) {
        0 => g.below(70),
        _ => g.limb(),
    };
    g.describe(|| format!("a={} e={}", hex4(&al), e));
    if e > 1 {
        g.nontrivial();
    }
    let want = un(&nat(&a).pow_mod(&Nat::from_u64(e), &two256()));
    ensure_eq!((&a).pow(e), want, "pow");
    let n = g.below(6) as usize;
    let items: Vec<U256> = (0..n).map(|_| u(any(g))).collect();
    let mut sum = Nat::zero();
    let mut prod = Nat::one();
    for i in &items {
        sum = wrap(&sum.add(&nat(i)));
        prod = wrap(&prod.mul(&nat(i)));
    }
    let got: U256 = items.iter().cloned().sum();
    ensure_eq!(got, un(&sum), "sum of {} items", n);
    let got: U256 = items.into_iter().product();
    ensure_eq!(got, un(&prod), "product of {} items", n);
    Ok(())
}

fn bits(g: &mut Gen) -> CaseResult {
    let al = any(g);
    let bl = related(g, &al);
    let (a, b) = (u(al), u(bl));
    let (an, bn) = (nat(&a), nat(&b));
    let sh = match g.below(6) {
        0 => *g.pick(&[0_usize, 1, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257]),
        1 if g.bool() => (1_usize << g.usize_in(8, 63)) + g.below(260) as usize,
        1 => *g.pick(&[320_usize, 1 << 31, 1 << 32, usize::max_value(), 512]),
        _ => g.below(260) as usize,
    };
    let w = g.limb();
    g.describe(|| format!("a={} b={} shift={}", hex4(&al), hex4(&bl), sh));
    if sh > 0 && !an.is_zero() {
        g.nontrivial();
    }
    let op = |f: fn(u64, u64) -> u64| {
        u([f(al[0], bl[0]), f(al[1], bl[1]), f(al[2], bl[2]), f(al[3], bl[3])])
    };
    macro_rules! binop {
        ($name:expr, $op:tt, $assign:tt, $f:expr) => {{
            let want = op($f);
            ensure_eq!(&a $op &b, want, "&a {} &b", $name);
            ensure_eq!(a.clone() $op &b, want, "a {} &b", $name);
            ensure_eq!(&a $op b.clone(), want, "&a {} b", $name);
            ensure_eq!(a.clone() $op b.clone(), want, "a {} b", $name);
            let mut t = a.clone();
            t $assign &b;
            ensure_eq!(t, want, "a {}= &b", $name);
            let mut t = a.clone();
            t $assign b.clone();
            ensure_eq!(t, want, "a {}= b", $name);
        }};
    }
    binop!("&", &, &=, |x, y| x & y);
    binop!("|", |, |=, |x, y| x | y);
    binop!("^", ^, ^=, |x, y| x ^ y);
    ensure_eq!(!a.clone(), u([!al[0], !al[1], !al[2], !al[3]]), "!a");
    ensure_eq!(&a & w, al[0] & w, "&a & w");
    // shifts
    let want_l = if sh < 256 { un(&wrap(&an.shl(sh))) } else { U256::ZERO };
    let want_r = if sh < 256 { un(&an.shr(sh)) } else { U256::ZERO };
    ensure_eq!(a.clone() << sh, want_l, "a << {}", sh);
    ensure_eq!(a.clone() >> sh, want_r, "a >> {}", sh);
    let mut t = a.clone();
    t <<= sh;
    ensure_eq!(t, want_l, "a <<= {}", sh);
    let mut t = a.clone();
    t >>= sh;
    ensure_eq!(t, want_r, "a >>= {}", sh);
    // queries
    ensure_eq!(a.bit(sh), sh < 256 && an.bit(sh), "bit {}", sh);
    let ones: u32 = al.iter().map(|l| u64::count_ones(*l)).sum();
    ensure_eq!(a.count_ones(), ones as usize, "count_ones");
    ensure_eq!(a.count_zeros(), 256 - ones as usize, "count_zeros");
    ensure_eq!(a.leading_zeros(), 256 - an.bits(), "leading_zeros");
    ensure_eq!(a.bits(), an.bits(), "bits");
    ensure_eq!(a.most_significant_bit(), an.bits().checked_sub(1), "most_significant_bit");
    let tz = (0..256).find(|i| an.bit(*i)).unwrap_or(256);
    ensure_eq!(a.trailing_zeros(), tz, "trailing_zeros");
    ensure_eq!(<U256 as Binary>::num_bits(), 256, "num_bits");
    // limbs
    for i in 0..6 {
        ensure_eq!(a.limb(i), al.get(i).copied().unwrap_or(0), "limb {}", i);
    }
    let i = g.below(4) as usize;
    let mut t = a.clone();
    t.set_limb(i, w);
    let mut tl = al;
    tl[i] = w;
    ensure_eq!(t, u(tl), "set_limb {}", i);
    // order and equality
    ensure_eq!(a.cmp(&b), an.cmp(&bn), "cmp");
    ensure_eq!(a.partial_cmp(&b), Some(an.cmp(&bn)), "partial_cmp");
    ensure_eq!(a == b, al == bl, "==");
    ensure_eq!(a < b, an < bn, "<");
    ensure_eq!(a >= b, an >= bn, ">=");
    ensure_eq!(a.is_zero(), an.is_zero(), "is_zero");
    ensure_eq!(a.is_one(), an == Nat::one(), "is_one");
    ensure!(U256::zero().is_zero() && U256::one() == u([1, 0, 0, 0]), "constants");
    ensure!(U256::min_value().is_zero() && nat(&U256::max_value()) == two256().sub(&Nat::one()), "bounds");
    if a == b {
        let h = |x: &U256| {
            let mut s = DefaultHasher::new();
            x.hash(&mut s);
            s.finish()
        };
        ensure_eq!(h(&a), h(&b), "hash");
    }
    Ok(())
}

/// The exported single-limb primitives.
fn limb_primitives(g: &mut Gen) -> CaseResult {
    let (a, b, c, d) = (g.limb(), g.limb(), g.limb(), g.limb());
    let cin = g.below(2);
    g.describe(|| format!("{:#x} {:#x} {:#x} {:#x}", a, b, c, d));
    let w = |x: u128| (x as u64, (x >> 64) as u64);
    if a != 0 && b != 0 {
        g.nontrivial();
    }
    ensure_eq!(adc(a, b, d), w(u128::from(a) + u128::from(b) + u128::from(d)), "adc");
    let (r, o1) = a.overflowing_sub(b);
    let (r, o2) = r.overflowing_sub(cin);
    ensure_eq!(sbb(a, b, cin), (r, u64::from(o1 || o2)), "sbb");
    ensure_eq!(
        mac(a, b, c, d),
        w(u128::from(a) + u128::from(b) * u128::from(c) + u128::from(d)),
        "mac"
    );
    // a - (b * c + d) == r - borrow * 2^64
    let (r, borrow) = msb(a, b, c, d);
    let lhs = Nat::from_u64(a).add(&Nat::from_u64(borrow).shl(64));
    let rhs = Nat::from_u64(b).mul(&Nat::from_u64(c)).add(&Nat::from_u64(d)).add(&Nat::from_u64(r));
    ensure!(lhs == rhs, "msb({:#x},{:#x},{:#x},{:#x}) = ({:#x},{:#x})", a, b, c, d, r, borrow);
    let dd = b.max(1);
    let hi = a % dd;
    let n = (u128::from(hi) << 64) | u128::from(c);
    ensure_eq!(div_2_1(c, hi, dd), ((n / u128::from(dd)) as u64, (n % u128::from(dd)) as u64), "div_2_1");
    Ok(())
}

///
/// Each sample may take a limited number of words: a sampler that throws words
/// away for ever becomes a failure and not a hang. (Rejection keeps a word with
/// probability at least one half, so thousands are never needed.)
struct Words(vpbt::gen::Rng, u64);

impl rand::RngCore for Words {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }

    fn next_u64(&mut self) -> u64 {
        self.1 += 1;
        assert!(self.1 <= 8000, "sampling does not end: over 8000 words are taken for one number");
        self.0.next()
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// Numbers drawn from a range
fn ranges(g: &mut Gen) -> CaseResult {
    use rand::distributions::{Distribution, Uniform};
    let mut lo = any(g);
    let mut hi = match g.below(4) {
        // a few numbers
        0 | 1 => {
            let mut v = lo;
            vpbt::gen::add_small(&mut v, g.below(4));
            v
        }
        _ => related(g, &lo),
    };
    if g.one_in(10) {
        lo = [0; 4];
    }
    if g.one_in(10) {
        hi = [u64::MAX; 4];
    }
    let (mut a, mut b) = (nat(&u(lo)), nat(&u(hi)));
    if b < a {
        std::mem::swap(&mut a, &mut b);
    }
    let inclusive = a == b || g.bool();
    g.describe(|| format!("from 0x{} to 0x{}{}", a.to_hex(), b.to_hex(), if inclusive { " inclusive" } else { "" }));
    let count = if inclusive { b.sub(&a).add(&Nat::one()) } else { b.sub(&a) };
    if count.bits() > 1 {
        g.nontrivial();
    }
    g.label_if(count.bits() == 257, "every number");
    let mut rng = Words(vpbt::gen::Rng::new(g.u64()), 0);
    let dist = if inclusive { Uniform::new_inclusive(un(&a), un(&b)) } else { Uniform::new(un(&a), un(&b)) };
    let small = count <= Nat::from_u64(4);
    let mut seen = std::collections::BTreeSet::new();
    let (mut low, mut high) = (0, 0);
    for _ in 0..120 {
        rng.1 = 0;
        let v = match vpbt::no_panic(|| dist.sample(&mut rng)) {
            Ok(v) => nat(&v),
            Err(m) => {
                return vpbt::fail(format!("drawing from 0x{} to 0x{} (inclusive: {}): {}", a.to_hex(), b.to_hex(), inclusive, m))
            }
        };
        ensure!(v >= a && v <= b && (inclusive || v < b), "0x{} was drawn from 0x{} to 0x{} (inclusive: {})", v.to_hex(), a.to_hex(), b.to_hex(), inclusive);
        if v.sub(&a).shl(1) < count {
            low += 1;
        } else {
            high += 1;
        }
        if small {
            let _ = seen.insert(v.to_hex());
        }
    }
    if small {
        // missing one of four in 120 draws has probability 2^-47
        ensure_eq!(Nat::from_u64(seen.len() as u64), count, "different numbers drawn from 0x{} to 0x{} (inclusive: {})", a.to_hex(), b.to_hex(), inclusive);
    } else {
        // each half at least once; 3/5 of five is the least even split
        ensure!(low > 0 && high > 0, "only one half of 0x{} to 0x{} is drawn from", a.to_hex(), b.to_hex());
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C01",
        rule: "a case is non-trivial when the operation wraps, carries or borrows, the shift moves bits of a non-zero value, or the exponent exceeds one",
        assumptions: &["oracle: schoolbook integers on 32-bit digits written for this harness and cross-checked with Python"],
        facets: vec![
            Facet::new("additive", 3_000_000, 20_000_000, additive),
            Facet::new("multiplicative", 3_000_000, 20_000_000, multiplicative),
            Facet::new("powers-sums", 400_000, 2_000_000, powers_sums),
            Facet::new("bits", 3_000_000, 20_000_000, bits),
            Facet::new("ranges", 100_000, 1_000_000, ranges),
            Facet::new("limb-primitives", 2_000_000, 10_000_000, limb_primitives),
        ],
    }
}
