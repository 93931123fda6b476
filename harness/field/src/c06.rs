//! C06: field element encodings and integer conversions.
use super::common::*;
use num_traits::ToPrimitive;
use parity_scale_codec::{Decode, Encode};
use vpbt::{ensure, ensure_eq, fp::Prime, no_panic, CaseResult, Facet, Gen, Nat, Property};
use zkp_primefield::*;
use zkp_u256::U256;

fn from_ints<K: Pair>(g: &mut Gen) -> CaseResult {
    let bits = match g.below(4) {
        0 => {
            let k = *g.pick(&[7_u64, 8, 15, 16, 31, 32, 63, 64, 127]);
            let v = 1_u128 << k;
            let d = u128::from(g.below(4));
            if g.bool() {
                v.wrapping_add(d)
            } else {
                v.wrapping_sub(d)
            }
        }
        1 => u128::from(g.limb()) | (u128::from(g.limb()) << 64),
        2 => u128::MAX - u128::from(g.below(5)),
        _ => u128::from(g.u64()) | (u128::from(g.u64()) << 64),
    };
    g.describe(|| format!("{} {:#x}", K::NAME, bits));
    g.nontrivial();
    macro_rules! unsigned {
        ($t:ty) => {
            let v = bits as $t;
            same::<K>(&F::<K>::from(v), &O::<K>::from_nat(&Nat::from_u128(v as u128)), concat!("from ", stringify!($t)))?;
        };
    }
    macro_rules! signed {
        ($t:ty) => {
            let v = bits as $t;
            let abs = O::<K>::from_nat(&Nat::from_u128((v as i128).unsigned_abs()));
            same::<K>(&F::<K>::from(v), &if v < 0 { abs.neg() } else { abs }, &format!("from {}_{}", v, stringify!($t)))?;
        };
    }
    unsigned!(u8);
    unsigned!(u16);
    unsigned!(u32);
    unsigned!(u64);
    unsigned!(usize);
    unsigned!(u128);
    signed!(i8);
    signed!(i16);
    signed!(i32);
    signed!(i64);
    signed!(isize);
    signed!(i128);
    Ok(())
}

fn from_ints_both(g: &mut Gen) -> CaseResult {
    if g.one_in(3) {
        from_ints::<Scalar>(g)
    } else {
        from_ints::<Base>(g)
    }
}

fn from_u256<K: Pair>(g: &mut Gen) -> CaseResult {
    let p = O::<K>::modulus();
    let l = match g.below(4) {
        0 => {
            // around multiples of the modulus
            let k = Nat::from_u64(g.below(32));
            let m = p.mul(&k).limbs4();
            let mut m = m;
            if g.bool() {
                vpbt::gen::add_small(&mut m, g.below(3));
            } else {
                vpbt::gen::sub_small(&mut m, g.below(3));
            }
            m
        }
        1 => below_p::<K::O>(g),
        _ => g.limbs4(),
    };
    let n = Nat::from_limbs(&l);
    let u = U256::from_limbs(l);
    g.describe(|| format!("{} {}", K::NAME, n.to_hex()));
    g.label_if(n >= p, "not below the modulus");
    if n.bits() > 64 {
        g.nontrivial();
    }
    let want = O::<K>::from_nat(&n);
    same::<K>(&F::<K>::from(u.clone()), &want, "from U256")?;
    same::<K>(&F::<K>::from_uint_reduce(&u), &want, "from_uint_reduce")?;
    let e = f::<K>(&want);
    ensure_eq!(nat(&e.to_uint()), want.to_nat(), "to_uint");
    ensure_eq!(nat(&U256::from(&e)), want.to_nat(), "U256::from(&)");
    ensure_eq!(nat(&U256::from(e.clone())), want.to_nat(), "U256::from");
    if n < p {
        same::<K>(&F::<K>::from_uint(&u), &want, "from_uint")?;
        let raw = F::<K>::from_montgomery(u.clone());
        ensure_eq!(*raw.as_montgomery(), u, "as_montgomery(from_montgomery)");
    }
    Ok(())
}

fn from_u256_both(g: &mut Gen) -> CaseResult {
    if g.one_in(3) {
        from_u256::<Scalar>(g)
    } else {
        from_u256::<Base>(g)
    }
}

fn to_ints<K: Pair>(g: &mut Gen) -> CaseResult {
    let a: O<K> = match g.below(4) {
        0 | 1 => {
            let k = *g.pick(&[0_usize, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128]);
            let v = O::<K>::from_nat(&Nat::one().shl(k));
            let v = v + O::<K>::from_u64(g.below(4)) - O::<K>::from_u64(2);
            if g.bool() {
                v.neg()
            } else {
                v
            }
        }
        2 => elem::<K::O>(g),
        _ => {
            let v = O::<K>::from_nat(&Nat::from_limbs(&g.limbs4_len()));
            if g.bool() {
                v.neg()
            } else {
                v
            }
        }
    };
    let x = f::<K>(&a);
    let v = a.to_nat();
    let neg = a.neg().to_nat();
    g.describe(|| format!("{} {:?}", K::NAME, a));
    g.nontrivial();
    let low = |n: &Nat| {
        let l = n.limbs(2);
        u128::from(l[0]) | (u128::from(l[1]) << 64)
    };
    macro_rules! unsigned {
        ($m:ident, $t:ty, $bits:expr) => {
            ensure_eq!(x.$m(), if v.bits() <= $bits { Some(low(&v) as $t) } else { None }, concat!(stringify!($m), " of {:?}"), a);
        };
    }
    macro_rules! signed {
        ($m:ident, $t:ty, $bits:expr) => {
            let want = if v.bits() < $bits {
                Some(low(&v) as $t)
            } else if neg <= Nat::one().shl($bits - 1) {
                Some((low(&neg) as i128).wrapping_neg() as $t)
            } else {
                None
            };
            ensure_eq!(x.$m(), want, concat!(stringify!($m), " of {:?}"), a);
        };
    }
    unsigned!(to_u8, u8, 8);
    unsigned!(to_u16, u16, 16);
    unsigned!(to_u32, u32, 32);
    unsigned!(to_u64, u64, 64);
    unsigned!(to_usize, usize, 64);
    unsigned!(to_u128, u128, 128);
    signed!(to_i8, i8, 8);
    signed!(to_i16, i16, 16);
    signed!(to_i32, i32, 32);
    signed!(to_i64, i64, 64);
    signed!(to_isize, isize, 64);
    signed!(to_i128, i128, 128);
    Ok(())
}

fn to_ints_both(g: &mut Gen) -> CaseResult {
    if g.one_in(3) {
        to_ints::<Scalar>(g)
    } else {
        to_ints::<Base>(g)
    }
}

fn err(e: &dyn std::fmt::Display) -> vpbt::Failure {
    vpbt::Failure { msg: format!("unexpected error: {}", e), sig: None }
}

fn codecs<K: Pair>(g: &mut Gen) -> CaseResult {
    let a = elem::<K::O>(g);
    let x = f::<K>(&a);
    g.describe(|| format!("{} {:?}", K::NAME, a));
    if a.to_nat().bits() > 64 {
        g.nontrivial();
    }
    let be = a.to_nat().to_be_bytes(32);
    let hex: String = be.iter().map(|b| format!("{:02x}", b)).collect();
    let json = serde_json::to_string(&x).map_err(|e| err(&e))?;
    ensure_eq!(json, format!("\"0x{}\"", hex), "JSON");
    let back: F<K> = serde_json::from_str(&json).map_err(|e| err(&e))?;
    same::<K>(&back, &a, "JSON round trip")?;
    let bin = bincode::serialize(&x).map_err(|e| err(&e))?;
    ensure_eq!(bin, be, "bincode");
    let back: F<K> = bincode::deserialize(&bin).map_err(|e| err(&e))?;
    same::<K>(&back, &a, "bincode round trip")?;
    let le: Vec<u8> = be.iter().rev().copied().collect();
    ensure_eq!(x.encode(), le, "SCALE encoding");
    let mut out = vec![];
    x.encode_to(&mut out);
    ensure_eq!(out, le, "SCALE encode_to");
    x.using_encoded(|b| if b == &le[..] { Ok(()) } else { vpbt::fail(format!("using_encoded {:?}", b)) })?;
    let mut s = &le[..];
    let back = F::<K>::decode(&mut s).map_err(|e| err(&e.what()))?;
    ensure!(s.is_empty(), "SCALE decoding leaves bytes");
    same::<K>(&back, &a, "SCALE round trip")?;
    ensure!(format!("{:?}", x).contains(&hex), "Debug {:?} does not show the value {}", x, hex);
    // shorter text
    let short = format!("\"{}{}\"", if g.bool() { "0x" } else { "" }, a.to_nat().to_hex());
    let back: F<K> = serde_json::from_str(&short).map_err(|e| err(&e))?;
    same::<K>(&back, &a, "short JSON")?;
    Ok(())
}

fn codecs_both(g: &mut Gen) -> CaseResult {
    if g.one_in(3) {
        codecs::<Scalar>(g)
    } else {
        codecs::<Base>(g)
    }
}

/// Constant constructors of the base field.
fn consts(g: &mut Gen) -> CaseResult {
    let a = elem::<vpbt::fp::StarkP>(g);
    g.describe(|| format!("{:?}", a));
    g.nontrivial();
    same::<Base>(&FieldElement::from_uint_const(&un(&a.to_nat())), &a, "from_uint_const")?;
    same::<Base>(&FieldElement::from_montgomery_const(U256::from_limbs(a.mont())), &a, "from_montgomery_const")?;
    Ok(())
}

/// Text and bytes that are not an element's encoding.
fn malformed<K: Pair>(g: &mut Gen) -> CaseResult {
    g.nontrivial();
    let p = Nat::from_limbs(&K::O::P);
    match g.below(3) {
        0 => {
            // numbers from p up: refused or reduced
            let k = Nat::from_u64(1 + g.below(30));
            let n = p.mul(&k).add(&Nat::from_limbs(&below_p::<K::O>(g)));
            g.describe(|| format!("{} JSON of {}", K::NAME, n.to_hex()));
            let json = format!("\"0x{}\"", n.to_hex());
            match no_panic(|| serde_json::from_str::<F<K>>(&json)) {
                Ok(Ok(x)) => same::<K>(&x, &O::<K>::from_nat(&n), "deserialize a number above the modulus")?,
                Ok(Err(_)) => {}
                Err(e) => return vpbt::fail(format!("deserialize {}: {}", json, e)),
            }
            let bin = n.to_be_bytes(32);
            match no_panic(|| bincode::deserialize::<F<K>>(&bin)) {
                Ok(Ok(x)) => same::<K>(&x, &O::<K>::from_nat(&n), "deserialize bytes above the modulus")?,
                Ok(Err(_)) => {}
                Err(e) => return vpbt::fail(format!("deserialize {:?}: {}", bin, e)),
            }
            let le: Vec<u8> = bin.iter().rev().copied().collect();
            match no_panic(|| F::<K>::decode(&mut &le[..])) {
                Ok(Ok(x)) => same::<K>(&x, &O::<K>::from_nat(&n), "SCALE bytes above the modulus")?,
                Ok(Err(_)) => {}
                Err(e) => return vpbt::fail(format!("SCALE decode {:?}: {}", le, e)),
            }
        }
        1 => {
            let mut s: Vec<char> = elem::<K::O>(g).to_nat().to_hex().chars().collect();
            let i = g.below(s.len() as u64 + 1) as usize;
            s.insert(i, *g.pick(&['g', ' ', '-', '+', '.', '\u{e9}', 'X', '_']));
            let text: String = s.into_iter().collect();
            g.describe(|| format!("{} {:?}", K::NAME, text));
            let json = serde_json::to_string(&text).map_err(|e| err(&e))?;
            match no_panic(|| serde_json::from_str::<F<K>>(&json)) {
                Ok(Ok(x)) => return vpbt::fail(format!("{} deserializes to {:?}", json, x)),
                Ok(Err(_)) => {}
                Err(e) => return vpbt::fail(format!("deserialize {}: {}", json, e)),
            }
        }
        _ => {
            let n = g.usize_in(0, 31);
            let b = g.bytes(n);
            g.describe(|| format!("{} {:?}", K::NAME, b));
            match no_panic(|| bincode::deserialize::<F<K>>(&b)) {
                Ok(Ok(x)) => return vpbt::fail(format!("{} bytes deserialize to {:?}", n, x)),
                Ok(Err(_)) => {}
                Err(e) => return vpbt::fail(e),
            }
            match no_panic(|| F::<K>::decode(&mut &b[..])) {
                Ok(Ok(x)) => return vpbt::fail(format!("{} bytes decode to {:?}", n, x)),
                Ok(Err(_)) => {}
                Err(e) => return vpbt::fail(e),
            }
        }
    }
    Ok(())
}

fn malformed_both(g: &mut Gen) -> CaseResult {
    if g.one_in(3) {
        malformed::<Scalar>(g)
    } else {
        malformed::<Base>(g)
    }
}

pub fn property() -> Property {
    Property {
        id: "C06",
        rule: "integer conversions: every case (values are drawn around the limits of each width); others: value above 64 bits or input malformed",
        assumptions: &["an encoding of a number from the modulus up may be refused or reduced, not read as anything else"],
        facets: vec![
            Facet::new("from-machine", 300_000, 5_000_000, from_ints_both),
            Facet::new("from-u256", 500_000, 10_000_000, from_u256_both),
            Facet::new("to-machine", 500_000, 10_000_000, to_ints_both),
            Facet::new("codecs", 150_000, 3_000_000, codecs_both),
            Facet::new("const-constructors", 100_000, 1_000_000, consts),
            Facet::new("malformed", 100_000, 2_000_000, malformed_both),
        ],
    }
}
