//! C12: masked Keccak and canonical hashes.
use super::common::*;
use vpbt::{ensure, ensure_eq, CaseResult, Facet, Gen, Property};
use zkp_hash::{Hash, Hashable, MaskedKeccak};
use zkp_primefield::FieldElement;
use zkp_u256::U256;

fn bytes(g: &mut Gen) -> CaseResult {
    let n = match g.below(4) {
        _ if g.one_in(500) => *g.pick(&[1_usize << 12, 1 << 16, 1 << 17]) + g.usize_in(0, 300),
        0 => g.usize_in(0, 40),
        1 => (136 * g.usize_in(1, 4)).saturating_sub(2) + g.usize_in(0, 4),
        2 => g.usize_in(0, 700),
        _ => 32 * g.usize_in(0, 20),
    };
    let fill = g.below(4);
    let data: Vec<u8> = match fill {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => {
            let s = g.u64();
            let mut r = vpbt::gen::Rng::new(s);
            (0..n).map(|_| r.next() as u8).collect()
        }
    };
    g.label_if(n % 136 == 0, "whole blocks");
    if n > 0 {
        g.nontrivial();
    }
    // any split into updates
    let mut hasher = if g.bool() { MaskedKeccak::new() } else { MaskedKeccak::default() };
    let mut pos = 0;
    let mut cuts = vec![];
    while pos < n {
        let step = match g.below(4) {
            0 => n - pos,
            1 => 32.min(n - pos),
            2 => g.usize_in(0, (n - pos).min(140)),
            _ => 136.min(n - pos),
        };
        hasher.update(&data[pos..pos + step]);
        pos += step;
        cuts.push(step);
        if cuts.len() > 60 {
            hasher.update(&data[pos..]);
            break;
        }
    }
    g.describe(|| format!("{} bytes in updates {:?}", n, cuts));
    let got = hasher.hash();
    ensure_eq!(h(&got), masked(&[&data]), "masked Keccak of {} bytes", n);
    ensure!(h(&got)[20..].iter().all(|b| *b == 0), "mask");
    Ok(())
}

fn values(g: &mut Gen) -> CaseResult {
    let l = g.limbs4();
    g.nontrivial();
    g.describe(|| format!("{:x?}", l));
    ensure_eq!(h(&U256::from_limbs(l).hash()), be(&l), "hash of an integer");
    ensure_eq!(h(&(&U256::from_limbs(l)).hash()), be(&l), "hash of a reference");
    let f = field_limbs(g);
    let e = FieldElement::from_montgomery(U256::from_limbs(f));
    ensure_eq!(h(&e.hash()), be(&f), "hash of a field element");
    let x = Hash::new(be(&l));
    ensure_eq!(h(&x.hash()), be(&l), "hash of a hash");
    ensure_eq!(x.as_bytes().to_vec(), be(&l).to_vec(), "as_bytes");
    let text: String = be(&l).iter().map(|b| format!("{:02x}", b)).collect();
    #[cfg(not(feature = "nostd"))]
    ensure_eq!(format!("{:?}", x), format!("Hash(0x{})", text), "debug");
    ensure!(x == Hash::new(be(&l)) && x.clone() == x, "equality");
    // a difference in any one bit is a difference
    let bit = g.below(256) as usize;
    let mut y = be(&l);
    y[bit / 8] ^= 1 << (bit % 8);
    ensure!(x != Hash::new(y), "different hashes compare equal");
    ensure_eq!(h(&Hash::default()), [0_u8; 32], "default");
    Ok(())
}

fn seq_hash(parts: &[H]) -> H {
    if parts.len() == 1 {
        parts[0]
    } else {
        let refs: Vec<&[u8]> = parts.iter().map(|p| &p[..]).collect();
        masked(&refs)
    }
}

fn sequences(g: &mut Gen) -> CaseResult {
    let n = if g.one_in(400) {
        *g.pick(&[255_usize, 256, 257, 300, 1000, 2047, 4096, 5000])
    } else if g.one_in(10) {
        g.usize_in(10, 140)
    } else {
        *g.pick(&[1_usize, 2, 3, 0, 4, 5, 8, 9, 17, 34])
    };
    // the elements of long sequences are derived from the first ones
    let derive = |v: &mut Vec<[u64; 4]>| {
        for i in v.len()..n {
            let mut l = v[i % 16];
            l[0] = l[0].wrapping_add((i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15));
            l[2] ^= i as u64;
            v.push(l);
        }
    };
    let mut v: Vec<[u64; 4]> = (0..n.min(34)).map(|_| g.limbs4()).collect();
    derive(&mut v);
    g.describe(|| format!("{} elements", n));
    if n > 1 {
        g.nontrivial();
    }
    let parts: Vec<H> = v.iter().map(be).collect();
    let ints: Vec<U256> = v.iter().map(|l| U256::from_limbs(*l)).collect();
    ensure_eq!(h(&ints.hash()), seq_hash(&parts), "hash of {} integers", n);
    ensure_eq!(h(&ints.as_slice().hash()), seq_hash(&parts), "hash of a slice of {} integers", n);
    let hashes: Vec<Hash> = parts.iter().map(|p| Hash::new(*p)).collect();
    ensure_eq!(h(&hashes.hash()), seq_hash(&parts), "hash of {} hashes", n);
    let refs: Vec<&U256> = ints.iter().collect();
    ensure_eq!(h(&refs.hash()), seq_hash(&parts), "hash of {} references", n);
    let mut fl: Vec<[u64; 4]> = (0..n.min(34)).map(|_| field_limbs(g)).collect();
    derive(&mut fl);
    for l in fl.iter_mut() {
        if l[3] >= 576_460_752_303_423_505 && l[..3] != [0, 0, 0] {
            l[3] = 7;
        }
    }
    let fe: Vec<FieldElement> = fl.iter().map(|l| FieldElement::from_montgomery(U256::from_limbs(*l))).collect();
    let fparts: Vec<H> = fl.iter().map(be).collect();
    ensure_eq!(h(&fe.hash()), seq_hash(&fparts), "hash of {} field elements", n);
    // nested
    let cut = if n == 0 { 0 } else { g.usize_in(0, n) };
    let nested: Vec<Vec<U256>> = vec![ints[..cut].to_vec(), ints[cut..].to_vec()];
    let want = seq_hash(&[seq_hash(&parts[..cut]), seq_hash(&parts[cut..])]);
    ensure_eq!(h(&nested.hash()), want, "hash of nested sequences {}+{}", cut, n - cut);
    let one = vec![ints.clone()];
    ensure_eq!(h(&one.hash()), seq_hash(&parts), "hash of a sequence of one sequence");
    Ok(())
}

pub fn property() -> Property {
    // the oracle's Keccak, checked against the published value for the empty string
    assert_eq!(keccak(&[])[..4], [0xc5, 0xd2, 0x46, 0x01]);
    Property {
        id: "C12",
        rule: "byte strings that are not empty; every value; sequences of more than one element",
        assumptions: &["Keccak-256 itself is the tiny-keccak crate's, in the oracle too"],
        facets: vec![
            Facet::new("bytes", 1_000_000, 5_000_000, bytes),
            Facet::new("values", 1_000_000, 5_000_000, values),
            Facet::new("sequences", 500_000, 3_000_000, sequences),
        ],
    }
}
