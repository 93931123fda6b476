//! Independent hashing, tree and opening model.
use std::collections::BTreeMap;
use tiny_keccak::{Hasher, Keccak};
use vpbt::Gen;
use zkp_hash::{Hash, Hashable};
#[cfg(not(feature = "nostd"))]
use zkp_merkle_tree::VectorCommitment;
use zkp_primefield::FieldElement;
use zkp_u256::U256;

pub type H = [u8; 32];

pub fn keccak(parts: &[&[u8]]) -> H {
    let mut k = Keccak::v256();
    for p in parts {
        k.update(p);
    }
    let mut r = [0; 32];
    k.finalize(&mut r);
    r
}

pub fn masked(parts: &[&[u8]]) -> H {
    let mut r = keccak(parts);
    for b in &mut r[20..] {
        *b = 0;
    }
    r
}

pub fn h(x: &Hash) -> H {
    let mut r = [0; 32];
    r.copy_from_slice(x.as_bytes());
    r
}

pub fn be(l: &[u64; 4]) -> H {
    let mut r = [0; 32];
    for i in 0..4 {
        r[8 * i..8 * i + 8].copy_from_slice(&l[3 - i].to_be_bytes());
    }
    r
}

/// Leaves of several types. `Field` holds Montgomery limbs below the modulus.
#[derive(Clone, Debug, PartialEq)]
pub enum Leaf {
    Int([u64; 4]),
    Field([u64; 4]),
    Ints(Vec<[u64; 4]>),
    Raw(H),
}

impl Leaf {
    pub fn model_hash(&self) -> H {
        match self {
            Leaf::Int(l) | Leaf::Field(l) => be(l),
            Leaf::Ints(v) if v.len() == 1 => be(&v[0]),
            Leaf::Ints(v) => {
                let parts: Vec<H> = v.iter().map(be).collect();
                let refs: Vec<&[u8]> = parts.iter().map(|p| &p[..]).collect();
                masked(&refs)
            }
            Leaf::Raw(h) => *h,
        }
    }
}

/// Hash computed by the code under test.
impl Hashable for Leaf {
    fn hash(&self) -> Hash {
        match self {
            Leaf::Int(l) => U256::from_limbs(*l).hash(),
            Leaf::Field(l) => FieldElement::from_montgomery(U256::from_limbs(*l)).hash(),
            Leaf::Ints(v) => v.iter().map(|l| U256::from_limbs(*l)).collect::<Vec<_>>().hash(),
            Leaf::Raw(h) => Hash::new(*h),
        }
    }
}

/// A container other than `Vec`, using the default `leaf_hash`.
#[derive(Clone, Debug)]
pub struct Custom(pub Vec<Leaf>);
#[cfg(not(feature = "nostd"))]
impl VectorCommitment for Custom {
    type Leaf = Leaf;

    fn len(&self) -> usize {
        self.0.len()
    }

    fn leaf(&self, index: usize) -> Leaf {
        self.0[index].clone()
    }
}

pub fn field_limbs(g: &mut Gen) -> [u64; 4] {
    let mut l = g.limbs4();
    l[3] &= (1 << 59) - 1;
    if g.one_in(6) {
        // p - 1
        l = [0, 0, 0, (1 << 59) + 16];
        l = match g.below(3) {
            0 => [0, 0, 0, 576_460_752_303_423_505],
            1 => [u64::MAX, u64::MAX, u64::MAX, 576_460_752_303_423_504],
            _ => l,
        };
    }
    l
}

pub fn leaf(g: &mut Gen, kind: u64) -> Leaf {
    match kind {
        0 => Leaf::Int(g.limbs4()),
        1 => Leaf::Field(field_limbs(g)),
        2 => {
            let n = *g.pick(&[1_usize, 2, 3, 0, 5]);
            Leaf::Ints((0..n).map(|_| g.limbs4()).collect())
        }
        _ => {
            let b = g.bytes(32);
            let mut r = [0; 32];
            r.copy_from_slice(&b);
            Leaf::Raw(r)
        }
    }
}

/// Leaves: few choices are drawn for large trees, the rest is derived.
pub fn leaves(g: &mut Gen, n: usize) -> Vec<Leaf> {
    let kind = g.below(4);
    let distinct = g.below(4) != 0;
    let mut r: Vec<Leaf> = Vec::with_capacity(n);
    let base = g.limbs4();
    for i in 0..n {
        if n <= 8 || i < 4 {
            r.push(leaf(g, kind));
        } else if distinct {
            let mut l = base;
            l[0] = l[0].wrapping_add((i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15));
            l[1] ^= i as u64;
            l[3] &= (1 << 59) - 1;
            r.push(match kind {
                1 => Leaf::Field(l),
                2 => Leaf::Ints(vec![l, base]),
                3 => Leaf::Raw(be(&l)),
                _ => Leaf::Int(l),
            });
        } else {
            let c = r[i % 4].clone();
            r.push(c);
        }
    }
    r
}

/// layers[d][i]: node i of the layer with 2^d nodes.
pub fn layers(leaves: &[H]) -> Vec<Vec<H>> {
    let mut r = vec![leaves.to_vec()];
    while r[0].len() > 1 {
        let l = r[0].chunks(2).map(|c| masked(&[&c[0], &c[1]])).collect();
        r.insert(0, l);
    }
    r
}

/// The hashes an opening must contain, layer by layer from the leaves, left to right.
pub fn opening(layers: &[Vec<H>], indices: &[usize]) -> Vec<H> {
    let mut known: Vec<usize> = indices.to_vec();
    known.sort_unstable();
    known.dedup();
    let mut out = Vec::new();
    for d in (1..layers.len()).rev() {
        for &i in &known {
            if known.binary_search(&(i ^ 1)).is_err() {
                out.push(layers[d][i ^ 1]);
            }
        }
        known = known.iter().map(|i| i / 2).collect();
        known.dedup();
    }
    out
}

/// Root determined by leaves and an opening. None: wrong number of hashes.
pub fn reconstruct(depth: usize, leaves: &BTreeMap<usize, H>, hashes: &[H]) -> Option<H> {
    let mut it = hashes.iter();
    let mut known = leaves.clone();
    for _ in 0..depth {
        let mut next = BTreeMap::new();
        for (&i, h) in &known {
            let v = match known.get(&(i ^ 1)) {
                Some(s) if i & 1 == 0 => masked(&[h, s]),
                Some(_) => continue,
                None => {
                    let s = it.next()?;
                    if i & 1 == 0 {
                        masked(&[h, s])
                    } else {
                        masked(&[s, h])
                    }
                }
            };
            let _ = next.insert(i / 2, v);
        }
        known = next;
    }
    if it.next().is_some() {
        return None;
    }
    known.get(&0).copied()
}

/// An index list with duplicates, adjacent pairs and runs.
pub fn indices(g: &mut Gen, n: usize) -> Vec<usize> {
    let k = match g.below(6) {
        _ if g.one_in(100) => g.usize_in(40, 300),
        0 => 1,
        1 => 2,
        2 => g.usize_in(1, 4),
        3 => g.usize_in(1, 20),
        4 => g.usize_in(1, 40),
        _ => 3,
    };
    if n <= 64 && g.one_in(12) {
        let mut all: Vec<usize> = (0..n).collect();
        if g.bool() {
            all.reverse();
        }
        return all;
    }
    let mut v: Vec<usize> = Vec::new();
    for _ in 0..k {
        let i = match g.below(6) {
            0 if !v.is_empty() => v[g.below(v.len() as u64) as usize],
            1 if !v.is_empty() => v[g.below(v.len() as u64) as usize] ^ usize::from(n > 1),
            2 if !v.is_empty() => (v[g.below(v.len() as u64) as usize] + 1) % n,
            3 => *g.pick(&[0, n - 1, n / 2, n / 2 - usize::from(n > 1)]),
            _ => g.below(n as u64) as usize,
        };
        v.push(i);
    }
    v
}
