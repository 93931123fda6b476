//! C14: altered openings are refused.
use super::common::*;
use std::collections::BTreeMap;
use vpbt::{ensure, ensure_eq, fail, no_panic, CaseResult, Facet, Gen, Property};
use zkp_hash::Hash;
use zkp_merkle_tree::{Commitment, Error, Proof};
#[cfg(not(feature = "nostd"))]
use zkp_merkle_tree::{Tree, VectorCommitment};

/// What the code under test says of an opening given as plain data.
fn judge(size: usize, root: &H, idx: &[usize], hashes: &[H], sel: &[(usize, Leaf)]) -> Result<Result<(), Error>, String> {
    no_panic(|| {
        let com = Commitment::from_size_hash(size, &Hash::new(*root))?;
        let hs: Vec<Hash> = hashes.iter().map(|x| Hash::new(*x)).collect();
        Proof::from_hashes(&com, idx, &hs)?.verify(sel)
    })
}

/// Whether it is valid by the definition.
fn valid(size: usize, root: &H, idx: &[usize], hashes: &[H], sel: &[(usize, Leaf)]) -> bool {
    if !size.is_power_of_two() || idx.iter().any(|i| *i >= size) {
        return false;
    }
    let mut m: BTreeMap<usize, H> = BTreeMap::new();
    for (i, l) in sel {
        if *i >= size {
            return false;
        }
        let v = l.model_hash();
        if let Some(old) = m.insert(*i, v) {
            if old != v {
                return false;
            }
        }
    }
    let mut s = idx.to_vec();
    s.sort_unstable();
    s.dedup();
    if m.keys().copied().collect::<Vec<_>>() != s {
        return false;
    }
    reconstruct(size.trailing_zeros() as usize, &m, hashes) == Some(*root)
}

fn tweak_leaf(g: &mut Gen, l: &Leaf) -> Leaf {
    let bit = g.below(240) as usize;
    match l {
        Leaf::Int(x) => {
            let mut x = *x;
            x[bit / 64] ^= 1 << (bit % 64);
            Leaf::Int(x)
        }
        Leaf::Field(x) => {
            let mut x = *x;
            x[bit % 192 / 64] ^= 1 << (bit % 64);
            Leaf::Field(x)
        }
        Leaf::Ints(v) => {
            let mut v = v.clone();
            match g.below(4) {
                0 => v.push([0; 4]),
                1 if v.len() > 1 => v.swap(0, 1),
                2 if !v.is_empty() => {
                    let _ = v.pop();
                }
                _ => {
                    if v.is_empty() {
                        v.push([1, 0, 0, 0])
                    } else {
                        v[0][bit / 64] ^= 1 << (bit % 64)
                    }
                }
            }
            Leaf::Ints(v)
        }
        Leaf::Raw(h) => {
            let mut h = *h;
            h[bit / 8] ^= 1 << (bit % 8);
            Leaf::Raw(h)
        }
    }
}

/// An opening made by the code under test.
#[cfg(not(feature = "nostd"))]
fn open(lv: &Vec<Leaf>, skip: usize, idx: &[usize]) -> Result<(Vec<H>, H), vpbt::Failure> {
    let tree = Tree::from_leaves_skip_layers(lv.clone(), skip).expect("tree");
    match no_panic(|| tree.open(idx)) {
        Ok(Ok(p)) => Ok((p.hashes().iter().map(h).collect(), h(tree.commitment().hash()))),
        x => Err(fail(format!("open {:?} of {}: {:?}", idx, lv.len(), x.map(|_| ()))).unwrap_err()),
    }
}

/// An opening by the definition, accepted by the code under test.
#[cfg(feature = "nostd")]
fn open(lv: &Vec<Leaf>, _: usize, idx: &[usize]) -> Result<(Vec<H>, H), vpbt::Failure> {
    let t = layers(&lv.iter().map(|l| l.model_hash()).collect::<Vec<_>>());
    let (hashes, root) = (opening(&t, idx), t[0][0]);
    let sel: Vec<(usize, Leaf)> = idx.iter().map(|&i| (i, lv[i].clone())).collect();
    let size = no_panic(|| Commitment::from_size_hash(lv.len(), &Hash::new(root)).and_then(|c| c.proof_size(idx)));
    if size != Ok(Ok(hashes.len())) {
        return Err(fail(format!("size {:?} of the opening of {:?} in {}, must be {}", size, idx, lv.len(), hashes.len())).unwrap_err());
    }
    match judge(lv.len(), &root, idx, &hashes, &sel) {
        Ok(Ok(())) => Ok((hashes, root)),
        x => Err(fail(format!("the opening of {:?} in {} is not accepted: {:?}", idx, lv.len(), x)).unwrap_err()),
    }
}

fn altered(g: &mut Gen) -> CaseResult {
    let depth = match g.below(4) {
        _ if g.one_in(4000) => g.usize_in(10, 17),
        0 => g.usize_in(0, 2),
        1 => g.usize_in(1, 4),
        2 => g.usize_in(2, 6),
        _ => g.usize_in(5, 9),
    };
    let n = 1_usize << depth;
    let lv = leaves(g, n);
    let skip = g.usize_in(0, depth);
    let mut idx = indices(g, n);
    let (mut hashes, mut root) = open(&lv, skip, &idx)?;
    let mut size = n;
    let mut sel: Vec<(usize, Leaf)> = idx.iter().map(|&i| (i, lv[i].clone())).collect();
    let times = if g.one_in(5) { 2 } else { 1 };
    let mut what = vec![];
    for _ in 0..times {
        let k = g.below(sel.len().max(1) as u64) as usize;
        let j = g.below(hashes.len().max(1) as u64) as usize;
        let w = match g.below(20) {
            0 | 1 => {
                if k < sel.len() {
                    sel[k].1 = tweak_leaf(g, &sel[k].1.clone());
                }
                "leaf changed"
            }
            2 => {
                let m = g.below(sel.len().max(1) as u64) as usize;
                if k < sel.len() && m < sel.len() {
                    let t = sel[k].1.clone();
                    sel[k].1 = sel[m].1.clone();
                    sel[m].1 = t;
                }
                "leaves swapped"
            }
            3 => {
                if k < sel.len() {
                    let _ = sel.remove(k);
                }
                "leaf left out"
            }
            4 => {
                sel.clear();
                "all leaves left out"
            }
            5 => {
                let i = g.below(n as u64) as usize;
                sel.push((i, lv[i].clone()));
                "committed leaf added"
            }
            6 => {
                let i = g.below(n as u64) as usize;
                let l = tweak_leaf(g, &lv[i]);
                sel.push((i, l));
                "wrong leaf added"
            }
            7 => {
                if k < sel.len() {
                    let mut l = sel[k].clone();
                    l.1 = tweak_leaf(g, &l.1);
                    let at = g.below(sel.len() as u64 + 1) as usize;
                    sel.insert(at, l);
                }
                "duplicate with another value"
            }
            8 => {
                if k < sel.len() {
                    let i = match g.below(4) {
                        0 => sel[k].0 ^ 1,
                        1 => sel[k].0 + n,
                        2 => usize::max_value() - g.below(2) as usize,
                        _ => g.below(2 * n as u64) as usize,
                    };
                    sel[k].0 = i;
                }
                "leaf at another index"
            }
            9 => {
                if k < sel.len() {
                    let old = sel[k].0;
                    let i = g.below(n as u64) as usize;
                    for s in &mut sel {
                        if s.0 == old {
                            s.0 = i;
                        }
                    }
                    for s in &mut idx {
                        if *s == old {
                            *s = i;
                        }
                    }
                }
                "leaf claimed at another index"
            }
            10 | 11 => {
                if j < hashes.len() {
                    let bit = g.below(256) as usize;
                    hashes[j][bit / 8] ^= 1 << (bit % 8);
                }
                "hash changed"
            }
            12 => {
                let m = g.below(hashes.len().max(1) as u64) as usize;
                if j < hashes.len() {
                    hashes.swap(j, m);
                }
                "hashes swapped"
            }
            13 => {
                if j < hashes.len() {
                    let _ = hashes.remove(j);
                }
                "hash left out"
            }
            14 => {
                let extra = if hashes.is_empty() { [0; 32] } else { hashes[j] };
                let at = g.below(hashes.len() as u64 + 1) as usize;
                hashes.insert(at, extra);
                "hash added"
            }
            15 => {
                let bit = g.below(256) as usize;
                root[bit / 8] ^= 1 << (bit % 8);
                "root changed"
            }
            16 => {
                // the root of another tree
                let mut l2 = lv.clone();
                let i = g.below(n as u64) as usize;
                l2[i] = tweak_leaf(g, &l2[i]);
                root = layers(&l2.iter().map(Leaf::model_hash).collect::<Vec<_>>())[0][0];
                "another tree"
            }
            17 => {
                size = match g.below(5) {
                    0 => 2 * n,
                    1 => n / 2,
                    2 => n + 1,
                    3 => 0,
                    _ => usize::max_value(),
                };
                "another size"
            }
            18 => {
                // leaf replaced by the left child of the root etc: path as a shorter opening
                if depth > 0 && !hashes.is_empty() {
                    size = n / 2;
                    let _ = hashes.remove(0);
                    for i in &mut idx {
                        *i /= 2;
                    }
                    for s in &mut sel {
                        s.0 /= 2;
                    }
                }
                "shorter path"
            }
            _ => {
                if k < sel.len() {
                    let v = h(&zkp_hash::Hashable::hash(&sel[k].1));
                    sel[k].1 = Leaf::Raw(masked(&[&v]));
                }
                "leaf replaced by its hash"
            }
        };
        what.push(w);
        g.label(w);
    }
    g.describe(|| format!("{:?}: {} leaves, indices {:?}, leaves at {:?}", what, n, idx, sel.iter().map(|s| s.0).collect::<Vec<_>>()));
    if times == 1 {
        g.nontrivial();
    }
    let want = valid(size, &root, &idx, &hashes, &sel);
    match judge(size, &root, &idx, &hashes, &sel) {
        Ok(r) => {
            if want {
                ensure!(r.is_ok(), "{:?} left the opening valid, but it is refused: {:?}", what, r);
            } else {
                ensure!(r.is_err(), "{:?}: accepted; size {} indices {:?} leaves at {:?}", what, size, idx, sel.iter().map(|s| s.0).collect::<Vec<_>>());
            }
        }
        Err(p) => return fail(format!("{:?}: {}", what, p)),
    }
    Ok(())
}

struct Length(usize);
#[cfg(not(feature = "nostd"))]
impl VectorCommitment for Length {
    type Leaf = Leaf;

    fn len(&self) -> usize {
        self.0
    }

    fn leaf(&self, index: usize) -> Leaf {
        Leaf::Int([index as u64, 0, 0, 0])
    }
}

#[cfg(not(feature = "nostd"))]
fn malformed(g: &mut Gen) -> CaseResult {
    g.nontrivial();
    match g.below(5) {
        0 => {
            // index out of range
            let depth = g.usize_in(0, 6);
            let n = 1_usize << depth;
            let tree = Tree::from_leaves(Custom(leaves(g, n))).expect("tree");
            let mut idx = if g.bool() { indices(g, n) } else { vec![] };
            let bad = match g.below(5) {
                0 => n,
                1 => n + g.below(2 * n as u64) as usize,
                2 => usize::max_value(),
                3 => 1 << 63,
                _ => (g.u64() as usize).max(n),
            };
            let at = g.below(idx.len() as u64 + 1) as usize;
            idx.insert(at, bad);
            g.describe(|| format!("open {:?} of {}", idx, n));
            match no_panic(|| tree.open(&idx).map(|_| ())) {
                Ok(r) => ensure!(r.is_err(), "index {} of {} opened", bad, n),
                Err(p) => return fail(format!("open {:?} of {}: {}", idx, n, p)),
            }
            match no_panic(|| tree.commitment().proof_size(&idx)) {
                Ok(r) => ensure!(r.is_err(), "proof size for index {} of {}: {:?}", bad, n, r),
                Err(p) => return fail(format!("proof_size {:?} of {}: {}", idx, n, p)),
            }
        }
        1 => {
            // size not a power of two
            let n = match g.below(3) {
                0 => g.usize_in(3, 300),
                1 => g.u64() as usize,
                _ => (1_usize << g.below(64)).wrapping_add(g.usize_in(1, 3)),
            };
            if n == 0 || n.is_power_of_two() {
                return Ok(());
            }
            g.describe(|| format!("size {}", n));
            match no_panic(|| Tree::from_leaves(Length(n)).map(|_| ())) {
                Ok(r) => ensure_eq!(r.err(), Some(Error::NumLeavesNotPowerOfTwo), "tree of {} leaves", n),
                Err(p) => return fail(format!("tree of {} leaves: {}", n, p)),
            }
            ensure!(Commitment::from_size_hash(n, &Hash::default()).is_err(), "commitment of size {}", n);
        }
        2 => {
            // wrong number of hashes
            let depth = g.usize_in(0, 62);
            let n = 1_usize << depth;
            let idx = indices(g, n);
            let com = Commitment::from_size_hash(n, &Hash::default()).expect("commitment");
            let want = match no_panic(|| com.proof_size(&idx)) {
                Ok(Ok(w)) => w,
                x => return fail(format!("proof_size {:?} of {}: {:?}", idx, n, x)),
            };
            let have = match g.below(3) {
                0 => want + g.usize_in(1, 4),
                1 => want.saturating_sub(g.usize_in(1, 4)),
                _ => g.usize_in(0, 2 * want + 3),
            };
            g.describe(|| format!("{} hashes instead of {}", have, want));
            let r = no_panic(|| Proof::from_hashes(&com, &idx, &vec![Hash::default(); have]).map(|_| ()));
            match r {
                Ok(r) => ensure_eq!(r.is_ok(), have == want, "{} hashes, {} needed", have, want),
                Err(p) => return fail(p),
            }
        }
        3 => {
            // empty tree
            let tree = match no_panic(|| Tree::from_leaves_skip_layers(Custom(vec![]), 1)) {
                Ok(Ok(t)) => t,
                x => return fail(format!("empty tree: {:?}", x.map(|r| r.map(|_| ())))),
            };
            let i = g.usize_in(0, 5);
            g.describe(|| format!("index {} of the empty tree", i));
            match no_panic(|| tree.open(&[i]).map(|_| ())) {
                Ok(r) => ensure!(r.is_err(), "opened the empty tree"),
                Err(p) => return fail(p),
            }
            let r = judge(0, &[0; 32], &[i], &[], &[(i, Leaf::Int([0; 4]))]);
            match r {
                Ok(r) => ensure!(r.is_err(), "leaf of the empty tree accepted"),
                Err(p) => return fail(p),
            }
        }
        _ => {
            // leaf index out of range at verification
            let depth = g.usize_in(0, 4);
            let n = 1_usize << depth;
            let lv = leaves(g, n);
            let tree = Tree::from_leaves(lv.clone()).expect("tree");
            let idx = indices(g, n);
            let p = match tree.open(&idx) {
                Ok(p) => p,
                Err(e) => return fail(format!("open: {:?}", e)),
            };
            let mut sel: Vec<(usize, Leaf)> = idx.iter().map(|&i| (i, lv[i].clone())).collect();
            let bad = *g.pick(&[n, 2 * n, 1 << 63, usize::max_value()]);
            let at = g.below(sel.len() as u64 + 1) as usize;
            sel.insert(at, (bad, lv[0].clone()));
            g.describe(|| format!("leaf {} of {}", bad, n));
            match no_panic(|| p.verify(&sel)) {
                Ok(r) => ensure!(r.is_err(), "leaf index {} of {} accepted", bad, n),
                Err(p) => return fail(p),
            }
        }
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C14",
        rule: "exactly one alteration of a valid opening (two in the rest), and every malformed request",
        assumptions: &["no Keccak collision occurs among the generated values"],
        facets: vec![
            Facet::new("altered", 700_000, 2_000_000, altered),
            #[cfg(not(feature = "nostd"))]
            Facet::new("malformed", 400_000, 800_000, malformed),
        ],
    }
}
