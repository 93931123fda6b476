//! C03: encodings and conversions of 256 bit integers.
use super::common::*;
use parity_scale_codec::{Decode, Encode};
use num_traits::{FromPrimitive, ToPrimitive};
use vpbt::{ensure, ensure_eq, no_panic, CaseResult, Facet, Gen, Nat, Property};
use zkp_u256::*;

/// Numbers with a simple decimal form: few digits and many zeros or nines, cut
/// at places like the 18, 19 or 20 digits that fit a machine word.
fn round(g: &mut Gen) -> Nat {
    let mut n = Nat::from_u64(0);
    let mut digits = 0;
    let pow = |k: usize| Nat::from_dec(&format!("1{}", "0".repeat(k)));
    while digits < 78 {
        let k = *g.pick(&[1_usize, 3, 9, 18, 19, 19, 19, 20, 38]);
        let group = match g.below(6) {
            0 | 1 => Nat::from_u64(0),
            2 => pow(k).sub(&Nat::one()),
            3 => Nat::one(),
            4 => pow(k - 1),
            _ => Nat::from_dec(&(g.u64() % 10_u64.pow(k.min(19) as u32)).to_string()),
        };
        n = n.mul(&pow(k)).add(&group);
        digits += k;
        if g.one_in(4) {
            break;
        }
    }
    while n.bits() > 256 {
        let s = n.to_dec();
        n = Nat::from_dec(&s[..s.len() - 1]);
    }
    n
}

fn bytes_text(g: &mut Gen) -> CaseResult {
    let al = if g.one_in(6) {
        g.label("round decimal");
        round(g).limbs4()
    } else {
        any(g)
    };
    let a = u(al);
    let an = nat(&a);
    g.describe(|| format!("a={}", hex4(&al)));
    if an.bits() > 64 {
        g.nontrivial();
    }
    let be = an.to_be_bytes(32);
    let b = a.to_bytes_be();
    ensure_eq!(&b[..], &be[..], "to_bytes_be");
    ensure_eq!(U256::from_bytes_be(&b), a, "from_bytes_be");
    let hex: String = be.iter().map(|b| format!("{:02x}", b)).collect();
    ensure_eq!(a.to_hex_string(), format!("0x{}", hex), "to_hex_string");
    ensure_eq!(U256::from_hex_str(&a.to_hex_string()), a, "from_hex_str(to_hex_string)");
    #[cfg(not(feature = "nostd"))]
    ensure_eq!(format!("{}", a), hex, "Display");
    ensure_eq!(format!("{:?}", a), format!("u256h!(\"{}\")", hex), "Debug");
    // shortened and mixed-case hexadecimal
    let short = an.to_hex();
    let pad = g.below(64) as usize;
    let mut s = format!("{:0>1$}", short, pad.max(short.len()));
    if g.bool() {
        s = s.to_uppercase();
    }
    if g.bool() {
        s = format!("0x{}", s);
    }
    ensure_eq!(U256::from_hex_str(&s), a, "from_hex_str({:?})", s);
    let dec = an.to_dec();
    ensure_eq!(a.to_decimal_string(), dec, "to_decimal_string");
    ensure_eq!(U256::from_decimal_str(&dec).ok(), Some(a.clone()), "from_decimal_str({})", dec);
    let zeros = g.below(20) as usize;
    let s = format!("{}{}", "0".repeat(zeros), dec);
    ensure_eq!(U256::from_decimal_str(&s).ok(), Some(a.clone()), "from_decimal_str({})", s);
    // serde
    let json = serde_json::to_string(&a).map_err(|e| err(&e))?;
    ensure_eq!(json, format!("\"0x{}\"", hex), "JSON");
    let back: U256 = serde_json::from_str(&json).map_err(|e| err(&e))?;
    ensure_eq!(back, a, "JSON round trip");
    let bin = bincode::serialize(&a).map_err(|e| err(&e))?;
    ensure_eq!(bin, be, "bincode");
    let back: U256 = bincode::deserialize(&bin).map_err(|e| err(&e))?;
    ensure_eq!(back, a, "bincode round trip");
    // SCALE: 32 bytes, least significant first
    let le: Vec<u8> = be.iter().rev().copied().collect();
    ensure_eq!(a.encode(), le, "SCALE encoding");
    let mut long = le.clone();
    long.push(1);
    let mut s = &long[..];
    let back = U256::decode(&mut s).map_err(|e| err(&e.what()))?;
    ensure_eq!(back, a, "SCALE round trip");
    ensure_eq!(s, &[1_u8][..], "SCALE decoding takes 32 bytes");
    match no_panic(|| U256::decode(&mut &le[..31])) {
        Ok(Ok(x)) => return vpbt::fail(format!("31 bytes decode to {:?}", x)),
        Ok(Err(_)) => {}
        Err(e) => return vpbt::fail(e),
    }
    Ok(())
}

fn err(e: &dyn std::fmt::Display) -> vpbt::Failure {
    vpbt::Failure { msg: format!("unexpected error: {}", e), sig: None }
}

/// Decimal strings, valid or not, with many near the limit 2^256.
fn decimal(g: &mut Gen) -> CaseResult {
    let max = two256();
    let s = match g.below(8) {
        0 => {
            // around the limit
            let d = Nat::from_u64(g.below(40));
            let n = if g.bool() { max.add(&d) } else { max.sub(&d.add(&Nat::one())) };
            n.to_dec()
        }
        1 => {
            // limit with the tail replaced
            let mut s = max.to_dec().into_bytes();
            let n = g.usize_in(1, 6);
            let l = s.len();
            for i in 0..n {
                s[l - 1 - i] = b'0' + g.below(10) as u8;
            }
            String::from_utf8(s).unwrap_or_default()
        }
        2 => {
            // multiples of ten times the limit and other numbers of 77 to 80 digits
            let n = g.usize_in(76, 80);
            let mut s = String::new();
            for _ in 0..n {
                s.push((b'0' + g.below(10) as u8) as char);
            }
            s
        }
        3 => Nat::from_limbs(&any(g)).mul(&Nat::from_u64(g.limb())).to_dec(),
        4 => {
            // characters that are not digits
            let mut s: Vec<char> = Nat::from_limbs(&any(g)).to_dec().chars().collect();
            let c = *g.pick(&['-', '+', ' ', 'a', 'x', '.', '_', '\u{e9}', '\u{661}', '\u{1d7d8}', '\0', '/', ':']);
            let i = g.below(s.len() as u64 + 1) as usize;
            s.insert(i, c);
            s.into_iter().collect()
        }
        5 => round(g).mul(&Nat::from_u64(*g.pick(&[1, 1, 10, 100]))).to_dec(),
        6 => {
            let n = g.usize_in(0, 4);
            (0..n)
                .map(|_| *g.pick(&['0', '9', '5', ' ', '-', '\u{20ac}', '\u{10ffff}', 'f']))
                .collect()
        }
        _ => Nat::from_limbs(&any(g)).to_dec(),
    };
    g.describe(|| format!("{:?}", s));
    let valid = !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    let want = if valid {
        let n = Nat::from_dec(&s);
        if n < max {
            Some(un(&n))
        } else {
            None
        }
    } else {
        None
    };
    g.label_if(!valid, "malformed");
    g.label_if(valid && want.is_none(), "overflow");
    if want.is_none() || s.len() > 70 {
        g.nontrivial();
    }
    match no_panic(|| U256::from_decimal_str(&s).ok()) {
        Ok(got) => ensure_eq!(got, want, "from_decimal_str({:?})", s),
        Err(p) => return vpbt::fail(format!("from_decimal_str({:?}): {}", s, p)),
    }
    Ok(())
}

/// Hexadecimal strings, valid or not, through serde and directly.
fn hexadecimal(g: &mut Gen) -> CaseResult {
    let digits = match g.below(5) {
        0 => g.usize_in(63, 68),
        1 => g.usize_in(0, 3),
        2 => g.usize_in(65, 130),
        _ => g.usize_in(0, 64),
    };
    let zeros = if g.one_in(3) { g.usize_in(0, digits) } else { 0 };
    let mut s: Vec<char> = (0..digits)
        .map(|i| if i < zeros { '0' } else { *g.pick(&['0', '1', '7', '8', '9', 'a', 'b', 'f', 'A', 'F']) })
        .collect();
    if g.one_in(4) {
        let c = *g.pick(&['g', 'G', ' ', '-', '+', 'x', '\u{e9}', '\u{1d7d8}', '"', '/', ':', '@', '`']);
        let i = g.below(s.len() as u64 + 1) as usize;
        s.insert(i, c);
    }
    let body: String = s.into_iter().collect();
    if body.starts_with("0x") {
        return Ok(());
    }
    let text = if g.bool() { format!("0x{}", body) } else { body.clone() };
    g.describe(|| format!("{:?}", text));
    let valid = body.bytes().all(|b| b.is_ascii_hexdigit());
    let value = if valid { Some(Nat::from_hex(&body)) } else { None };
    let fits = value.as_ref().map_or(false, |v| v.bits() <= 256);
    g.label_if(!valid, "malformed");
    g.label_if(valid && !fits, "overflow");
    if !fits || body.len() > 32 {
        g.nontrivial();
    }
    let want = value.filter(|_| fits).map(|v| un(&v));
    // direct: a panic is this function's only way to refuse
    match no_panic(|| U256::from_hex_str(&text)) {
        Ok(got) => ensure_eq!(Some(got), want, "from_hex_str({:?})", text),
        Err(p) => ensure!(!fits || body.len() > 64, "from_hex_str({:?}): {}", text, p),
    }
    // serde reports an error
    let json = serde_json::to_string(&text).map_err(|e| err(&e))?;
    match no_panic(|| serde_json::from_str::<U256>(&json)) {
        Ok(Ok(got)) => ensure_eq!(Some(got), want, "deserialize {}", json),
        Ok(Err(e)) => ensure!(!fits || body.len() > 64, "deserialize {}: {}", json, e),
        Err(p) => return vpbt::fail(format!("deserialize {}: {}", json, p)),
    }
    Ok(())
}

/// Byte strings of other lengths, and JSON values of other kinds.
fn serde_malformed(g: &mut Gen) -> CaseResult {
    g.nontrivial();
    if g.bool() {
        let n = g.usize_in(0, 40);
        let b = g.bytes(n);
        g.describe(|| format!("{:?}", b));
        match no_panic(|| bincode::deserialize::<U256>(&b)) {
            Ok(Ok(v)) => {
                ensure!(n >= 32, "{} bytes deserialize to {:?}", n, v);
                ensure_eq!(nat(&v), Nat::from_be_bytes(&b[..32]), "deserialize bytes");
            }
            Ok(Err(_)) => ensure!(n < 32, "{} bytes are refused", n),
            Err(p) => return vpbt::fail(p),
        }
    } else {
        let s = *g.pick(&["null", "12", "-1", "[]", "{}", "true", "[1,2]", "", "\"", "1e5", "\"0x", "[\"0x1\"]"]);
        g.describe(|| s.to_string());
        match no_panic(|| serde_json::from_str::<U256>(s)) {
            Ok(Ok(v)) => return vpbt::fail(format!("JSON {} deserializes to {:?}", s, v)),
            Ok(Err(_)) => {}
            Err(p) => return vpbt::fail(p),
        }
    }
    Ok(())
}

fn machine(g: &mut Gen) -> CaseResult {
    let al = match g.below(4) {
        0 => {
            // near a machine integer limit
            let k = *g.pick(&[0_usize, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255]);
            let mut v = Nat::one().shl(k).limbs4();
            if g.bool() {
                vpbt::gen::sub_small(&mut v, g.below(3));
            } else {
                vpbt::gen::add_small(&mut v, g.below(3));
            }
            v
        }
        1 => {
            let mut v = Nat::one().shl(*g.pick(&[7_usize, 15, 31, 63, 127])).limbs4();
            vpbt::gen::sub_small(&mut v, g.below(2));
            // negative numbers in two's complement
            two256().sub(&Nat::from_limbs(&v)).low_bits(256).limbs4()
        }
        _ => any(g),
    };
    let a = u(al);
    let an = nat(&a);
    g.describe(|| format!("a={}", hex4(&al)));
    g.nontrivial();
    let low128 = u128::from(al[0]) | (u128::from(al[1]) << 64);
    // wrapping casts
    ensure_eq!(a.as_u8(), low128 as u8, "as_u8");
    ensure_eq!(a.as_u16(), low128 as u16, "as_u16");
    ensure_eq!(a.as_u32(), low128 as u32, "as_u32");
    ensure_eq!(a.as_u64(), low128 as u64, "as_u64");
    ensure_eq!(a.as_usize(), low128 as usize, "as_usize");
    ensure_eq!(a.as_u128(), low128, "as_u128");
    ensure_eq!(a.as_i8(), low128 as i8, "as_i8");
    ensure_eq!(a.as_i16(), low128 as i16, "as_i16");
    ensure_eq!(a.as_i32(), low128 as i32, "as_i32");
    ensure_eq!(a.as_i64(), low128 as i64, "as_i64");
    ensure_eq!(a.as_isize(), low128 as isize, "as_isize");
    ensure_eq!(a.as_i128(), low128 as i128, "as_i128");
    // checked casts
    let fits = |bits: usize| an.bits() <= bits;
    macro_rules! checked {
        ($f:ident, $t:ty, $bits:expr) => {
            ensure_eq!(a.$f(), if fits($bits) { Some(low128 as $t) } else { None }, stringify!($f));
        };
    }
    checked!(to_u8, u8, 8);
    checked!(to_u16, u16, 16);
    checked!(to_u32, u32, 32);
    checked!(to_u64, u64, 64);
    checked!(to_usize, usize, 64);
    checked!(to_u128, u128, 128);
    checked!(to_i8, i8, 7);
    checked!(to_i16, i16, 15);
    checked!(to_i32, i32, 31);
    checked!(to_i64, i64, 63);
    checked!(to_isize, isize, 63);
    checked!(to_i128, i128, 127);
    // from machine integers; negative ones are two's complement
    macro_rules! from_unsigned {
        ($t:ty) => {
            let x = low128 as $t;
            ensure_eq!(U256::from(x), un(&Nat::from_u128(x as u128)), "from {}", stringify!($t));
        };
    }
    macro_rules! from_signed {
        ($t:ty) => {
            let x = low128 as $t;
            let want = if x < 0 {
                two256().sub(&Nat::from_u128((x as i128).unsigned_abs()))
            } else {
                Nat::from_u128(x as u128)
            };
            ensure_eq!(U256::from(x), un(&want), "from {} {}", stringify!($t), x);
        };
    }
    from_unsigned!(u8);
    from_unsigned!(u16);
    from_unsigned!(u32);
    from_unsigned!(u64);
    from_unsigned!(usize);
    from_unsigned!(u128);
    from_signed!(i8);
    from_signed!(i16);
    from_signed!(i32);
    from_signed!(i64);
    from_signed!(isize);
    from_signed!(i128);
    ensure_eq!(U256::from(true), U256::ONE, "from true");
    ensure_eq!(U256::from(false), U256::ZERO, "from false");
    ensure_eq!(U256::from_u64(al[0]), Some(u([al[0], 0, 0, 0])), "from_u64");
    ensure_eq!(U256::from_usize(al[0] as usize), Some(u([al[0], 0, 0, 0])), "from_usize");
    let i = (al[0] >> 1) as i64;
    ensure_eq!(U256::from_i64(i), Some(u([i as u64, 0, 0, 0])), "from_i64");
    ensure_eq!(U256::from_i32(i as i32 & i32::max_value()), Some(u([i as u64 & 0x7fff_ffff, 0, 0, 0])), "from_i32");
    // absent where not provided, but never another number
    for r in vec![U256::from_u128(low128), U256::from_i128((low128 >> 1) as i128 * 2 + (low128 & 1) as i128)] {
        if let (Some(x), true) = (r, low128 >> 127 == 0) {
            ensure_eq!(x, un(&Nat::from_u128(low128)), "from a 128 bit number");
        }
    }
    ensure_eq!(U256::from_u32(al[0] as u32), Some(u([al[0] & 0xffff_ffff, 0, 0, 0])), "from_u32");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C03",
        rule: "a case is non-trivial when the value exceeds 64 bits, the text is malformed, overflows or is long, or (machine integers) always, because the values are drawn around the limits of each width",
        assumptions: &[
            "hexadecimal text of more than 64 digits may be refused even when its leading digits are zero",
            "from_hex_str has no error result; a panic counts as its refusal",
        ],
        facets: vec![
            Facet::new("bytes-text", 150_000, 4_000_000, bytes_text),
            Facet::new("decimal", 300_000, 8_000_000, decimal),
            Facet::new("hexadecimal", 300_000, 8_000_000, hexadecimal),
            Facet::new("serde-malformed", 50_000, 1_000_000, serde_malformed),
            Facet::new("machine", 500_000, 10_000_000, machine),
        ],
    }
}
