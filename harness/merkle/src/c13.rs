//! C13: honest openings.
use super::common::*;
use std::collections::BTreeMap;
use vpbt::{ensure, ensure_eq, CaseResult, Facet, Failure, Gen, Property};
use zkp_hash::Hash;
use zkp_merkle_tree::{Commitment, Proof, Tree, VectorCommitment};

fn e<T: std::fmt::Debug>(what: &'static str) -> impl FnOnce(T) -> Failure {
    move |x| Failure {
        msg: format!("{}: {:?}", what, x),
        sig: None,
    }
}

fn check<C: VectorCommitment<Leaf = Leaf>>(g: &mut Gen, tree: &Tree<C>, lv: &[Leaf]) -> CaseResult {
    let n = lv.len();
    let depth = n.trailing_zeros() as usize;
    let hashes: Vec<H> = lv.iter().map(Leaf::model_hash).collect();
    let model = layers(&hashes);
    ensure_eq!(h(tree.commitment().hash()), model[0][0], "root of {} leaves", n);
    ensure_eq!(tree.commitment().size(), n, "committed size");
    ensure_eq!(tree.leaf_depth(), depth, "leaf depth");
    ensure_eq!(tree.leaves().len(), n, "leaves");
    for _ in 0..3 {
        let idx = if g.one_in(20) { vec![] } else { indices(g, n) };
        g.describe(|| format!("{} leaves, open {:?}", n, idx));
        let mut sorted = idx.clone();
        sorted.sort_unstable();
        sorted.dedup();
        g.label_if(sorted.len() != idx.len(), "duplicates");
        g.label_if(sorted.windows(2).any(|w| w[0] ^ 1 == w[1]), "sibling pair");
        if sorted.len() > 1 {
            g.nontrivial();
        }
        let want = opening(&model, &idx);
        ensure_eq!(tree.commitment().proof_size(&idx).map_err(e("proof_size"))?, want.len(), "predicted size");
        let proof = tree.open(&idx).map_err(e("open"))?;
        let got: Vec<H> = proof.hashes().iter().map(h).collect();
        ensure_eq!(got, want, "hashes of the opening of {:?} among {}", idx, n);
        for &i in &idx {
            ensure_eq!(tree.leaf(i), lv[i], "leaf({})", i);
        }
        // with the leaves in any order, with or without the duplicates
        let mut order = if g.bool() { idx.clone() } else { sorted.clone() };
        if g.bool() {
            order.reverse();
        }
        if g.bool() && !order.is_empty() {
            let k = g.below(order.len() as u64) as usize;
            order.rotate_left(k);
        }
        let sel: Vec<(usize, Leaf)> = order.iter().map(|&i| (i, lv[i].clone())).collect();
        proof.verify(&sel).map_err(e("honest opening refused"))?;
        // the verifier's own reconstruction from bytes
        let com = Commitment::from_size_hash(n, &Hash::new(model[0][0])).map_err(e("from_size_hash"))?;
        let hs: Vec<Hash> = want.iter().map(|x| Hash::new(*x)).collect();
        let p2 = Proof::from_hashes(&com, &order, &hs).map_err(e("from_hashes"))?;
        p2.verify(&sel).map_err(e("reconstructed opening refused"))?;
        // oracle cross-check
        let m: BTreeMap<usize, H> = sorted.iter().map(|&i| (i, hashes[i])).collect();
        if !m.is_empty() {
            assert_eq!(reconstruct(depth, &m, &want), Some(model[0][0]));
        }
    }
    Ok(())
}

fn honest(g: &mut Gen) -> CaseResult {
    let depth = match g.below(8) {
        0 => 0,
        1 => 1,
        2 | 3 => g.usize_in(2, 4),
        4 | 5 | 6 => g.usize_in(3, 8),
        _ => g.usize_in(8, 11),
    };
    let n = 1_usize << depth;
    let lv = leaves(g, n);
    let skip = match g.below(3) {
        0 => 1,
        1 => g.usize_in(0, 4),
        _ => g.usize_in(0, depth + 2),
    };
    g.label_if(skip > depth, "all layers left out");
    g.label_if(skip == 0, "leaf layer stored");
    g.describe(|| format!("depth {} skip {}", depth, skip));
    match g.below(3) {
        0 if skip == 1 => {
            let (com, tree) = lv.clone().commit().map_err(e("commit"))?;
            ensure_eq!(h(com.hash()), h(tree.commitment().hash()), "commit");
            check(g, &tree, &lv)
        }
        0 => {
            let tree = Tree::from_leaves_skip_layers(lv.clone(), skip).map_err(e("from_leaves_skip_layers"))?;
            check(g, &tree, &lv)
        }
        1 => {
            let tree = Tree::from_leaves_skip_layers(Custom(lv.clone()), skip).map_err(e("from_leaves_skip_layers"))?;
            check(g, &tree, &lv)
        }
        _ => {
            let tree = Tree::from_leaves(Custom(lv.clone())).map_err(e("from_leaves"))?;
            check(g, &tree, &lv)
        }
    }
}

/// Tall trees.
fn tall(g: &mut Gen) -> CaseResult {
    let depth = g.usize_in(12, 18);
    let lv = leaves(g, 1 << depth);
    let skip = g.usize_in(0, 4);
    g.describe(|| format!("depth {} skip {}", depth, skip));
    let tree = Tree::from_leaves_skip_layers(lv.clone(), skip).map_err(e("from_leaves_skip_layers"))?;
    check(g, &tree, &lv)
}

/// The root does not depend on the number of threads.
fn threads(g: &mut Gen) -> CaseResult {
    let depth = g.usize_in(6, 13);
    let n = 1 << depth;
    let lv = leaves(g, n);
    let skip = g.usize_in(0, 3);
    let t = g.usize_in(1, 8);
    g.describe(|| format!("depth {} skip {} threads {}", depth, skip, t));
    g.nontrivial();
    let pool = rayon::ThreadPoolBuilder::new().num_threads(t).build().map_err(e("pool"))?;
    let want = layers(&lv.iter().map(Leaf::model_hash).collect::<Vec<_>>())[0][0];
    let tree = pool.install(|| Tree::from_leaves_skip_layers(lv, skip)).map_err(e("tree"))?;
    ensure_eq!(h(tree.commitment().hash()), want, "root with {} threads", t);
    Ok(())
}

/// Sizes predicted for trees too large to build.
fn sizes(g: &mut Gen) -> CaseResult {
    let depth = g.usize_in(0, 62);
    let n = 1_usize << depth;
    let idx = indices(g, n);
    g.describe(|| format!("depth {} open {:?}", depth, idx));
    g.nontrivial();
    let com = Commitment::from_size_hash(n, &Hash::default()).map_err(e("from_size_hash"))?;
    let mut known = idx.clone();
    known.sort_unstable();
    known.dedup();
    let mut want = 0;
    for _ in 0..depth {
        want += known.iter().filter(|&&i| known.binary_search(&(i ^ 1)).is_err()).count();
        known = known.iter().map(|i| i / 2).collect();
        known.dedup();
    }
    ensure_eq!(com.proof_size(&idx).map_err(e("proof_size"))?, want, "proof_size");
    // such an opening can be made from hashes
    let hs: Vec<Hash> = (0..want).map(|i| Hash::new(masked(&[&(i as u64).to_be_bytes()]))).collect();
    let raw: Vec<H> = hs.iter().map(h).collect();
    let leaf = |i: usize| Leaf::Int([i as u64, 7, 0, 0]);
    let m: BTreeMap<usize, H> = idx.iter().map(|&i| (i, leaf(i).model_hash())).collect();
    let root = reconstruct(depth, &m, &raw).expect("oracle");
    let com = Commitment::from_size_hash(n, &Hash::new(root)).map_err(e("from_size_hash"))?;
    let proof = Proof::from_hashes(&com, &idx, &hs).map_err(e("from_hashes"))?;
    let sel: Vec<(usize, Leaf)> = idx.iter().map(|&i| (i, leaf(i))).collect();
    proof.verify(&sel).map_err(e("valid opening of a large tree refused"))?;
    ensure!(proof.hashes() == &hs[..], "hashes()");
    Ok(())
}

/// Positions and hashes of single nodes
fn nodes(g: &mut Gen) -> CaseResult {
    let depth = g.usize_in(0, 9);
    let n = 1_usize << depth;
    let lv = leaves(g, n);
    let skip = g.usize_in(0, depth + 2);
    let idx = indices(g, n);
    g.describe(|| format!("depth {} skip {} nodes above {:?}", depth, skip, idx));
    if depth > 1 {
        g.nontrivial();
    }
    let model = layers(&lv.iter().map(Leaf::model_hash).collect::<Vec<_>>());
    let tree = Tree::from_leaves_skip_layers(lv, skip).map_err(e("from_leaves_skip_layers"))?;
    ensure!(!VectorCommitment::is_empty(tree.leaves()), "{} leaves are reported empty", n);
    ensure!(VectorCommitment::is_empty(&Custom(vec![])), "no leaves are not reported empty");
    let mut sorted = idx.clone();
    sorted.sort_unstable();
    sorted.dedup();
    let pos = tree.commitment().sort_indices(&idx).map_err(e("sort_indices"))?;
    let got: Vec<usize> = pos.iter().map(|p| p.offset()).collect();
    ensure_eq!(got, sorted, "sorted indices");
    for w in pos.windows(2) {
        // last node on both paths
        let (mut a, mut b, mut d) = (w[0].offset(), w[1].offset(), depth);
        while a != b {
            a /= 2;
            b /= 2;
            d -= 1;
        }
        let c = w[0].last_common_ancestor(w[1]);
        ensure_eq!((c.depth(), c.offset()), (d, a), "last common ancestor of {:?} and {:?}", w[0], w[1]);
    }
    for p in pos {
        let mut p = p;
        let mut o = p.offset();
        for d in (0..=depth).rev() {
            let at = |p: &dyn std::fmt::Debug| format!("{:?} of a tree of depth {}", p, depth);
            ensure_eq!((p.depth(), p.offset(), p.as_index()), (d, o, (1 << d) + o - 1), "position {}", at(&p));
            ensure_eq!(h(&tree.node_hash(p)), model[d][o], "hash of {}", at(&p));
            ensure_eq!(p.is_root(), d == 0, "is_root of {}", at(&p));
            ensure_eq!(p.is_left(), d > 0 && o % 2 == 0, "is_left of {}", at(&p));
            ensure_eq!(p.is_right(), o % 2 == 1, "is_right of {}", at(&p));
            ensure_eq!(p.is_left_most(), o == 0, "is_left_most of {}", at(&p));
            ensure_eq!(p.is_right_most(), o + 1 == 1 << d, "is_right_most of {}", at(&p));
            ensure_eq!(p.left_neighbor().map(|q| (q.depth(), q.offset())), if o == 0 { None } else { Some((d, o - 1)) }, "left_neighbor of {}", at(&p));
            ensure_eq!(
                p.right_neighbor().map(|q| (q.depth(), q.offset())),
                if o + 1 == 1 << d { None } else { Some((d, o + 1)) },
                "right_neighbor of {}",
                at(&p)
            );
            ensure_eq!(p.sibling().map(|q| (q.depth(), q.offset())), if d == 0 { None } else { Some((d, o ^ 1)) }, "sibling of {}", at(&p));
            ensure_eq!((p.left_child().depth(), p.left_child().offset()), (d + 1, 2 * o), "left_child of {}", at(&p));
            ensure_eq!((p.right_child().depth(), p.right_child().offset()), (d + 1, 2 * o + 1), "right_child of {}", at(&p));
            let q = p.concat(p);
            ensure_eq!((q.depth(), q.offset()), (2 * d, (o << d) + o), "concat of {} with itself", at(&p));
            if let Some(s) = p.sibling() {
                ensure_eq!(h(&tree.node_hash(s)), model[d][o ^ 1], "hash of {}", at(&s));
            }
            match p.parent() {
                Some(q) => {
                    ensure!(d > 0, "the root has a parent");
                    p = q;
                    o /= 2;
                }
                None => ensure_eq!(d, 0, "no parent of {}", at(&p)),
            }
        }
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C13",
        rule: "openings of more than one distinct index; trees built with a thread pool; large trees",
        assumptions: &["trees up to 2^13 leaves are built; larger ones (to 2^62) only opened from made-up hashes"],
        facets: vec![
            Facet::new("honest", 80_000, 200_000, honest),
            Facet::new("tall", 120, 500, tall),
            Facet::new("nodes", 40_000, 100_000, nodes),
            Facet::new("threads", 400, 1_500, threads).serial(),
            Facet::new("sizes", 200_000, 400_000, sizes),
        ],
    }
}
