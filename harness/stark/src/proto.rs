//! Independent implementation of the proof protocol: transcript, prover
//! (honest or deviating) and verifier. Shares no code with the crate under
//! test; the only inputs are the system, the trace and the bytes.
use super::{
    expr::*,
    sys::{wrap, Sys},
};
use std::collections::{BTreeMap, HashMap};
use tiny_keccak::{Hasher, Keccak};
use vpbt::{gen::Rng, Fp, Nat};

pub type H = [u8; 32];

pub fn keccak(parts: &[&[u8]]) -> H {
    let mut k = Keccak::v256();
    for p in parts {
        k.update(p);
    }
    let mut r = [0; 32];
    k.finalize(&mut r);
    r
}

pub fn masked(parts: &[&[u8]]) -> H {
    let mut r = keccak(parts);
    for b in &mut r[20..] {
        *b = 0;
    }
    r
}

pub fn be(l: &[u64; 4]) -> H {
    let mut r = [0; 32];
    for i in 0..4 {
        r[8 * i..8 * i + 8].copy_from_slice(&l[3 - i].to_be_bytes());
    }
    r
}

pub fn from_be(b: &[u8]) -> [u64; 4] {
    let mut l = [0; 4];
    for i in 0..4 {
        let mut w = [0; 8];
        w.copy_from_slice(&b[8 * (3 - i)..8 * (3 - i) + 8]);
        l[i] = u64::from_be_bytes(w);
    }
    l
}

pub fn bytes(x: Fp) -> H {
    be(&x.mont())
}

pub fn bitrev(n: usize, i: usize) -> usize {
    if n == 1 {
        0
    } else {
        i.reverse_bits() >> (n.leading_zeros() + 1)
    }
}

/// Values of a polynomial at 1, w, w^2, ...
pub fn ntt(a: &[Fp], w: Fp) -> Vec<Fp> {
    if a.len() == 1 {
        return a.to_vec();
    }
    let h = a.len() / 2;
    let even: Vec<Fp> = a.iter().step_by(2).cloned().collect();
    let odd: Vec<Fp> = a.iter().skip(1).step_by(2).cloned().collect();
    let e = ntt(&even, w.square());
    let o = ntt(&odd, w.square());
    let mut r = vec![Fp::zero(); a.len()];
    let mut x = Fp::one();
    for i in 0..h {
        let t = x * o[i];
        r[i] = e[i] + t;
        r[i + h] = e[i] - t;
        x = x * w;
    }
    r
}

pub fn intt(v: &[Fp]) -> Vec<Fp> {
    let n = v.len();
    let w = root(n).inv();
    let s = Fp::from_u64(n as u64).inv();
    ntt(v, w).into_iter().map(|x| x * s).collect()
}

/// Values on shift * <w_size>, natural order
pub fn coset(p: &[Fp], size: usize, shift: Fp) -> Vec<Fp> {
    let mut a = vec![Fp::zero(); size];
    let mut f = Fp::one();
    for (i, c) in p.iter().enumerate() {
        a[i] = *c * f;
        f = f * shift;
    }
    ntt(&a, root(size))
}

#[derive(Clone)]
pub struct Coin {
    pub digest:  H,
    pub counter: u64,
}

impl Coin {
    pub fn new(seed: &[u8]) -> Self {
        Coin {
            digest:  keccak(&[seed]),
            counter: 0,
        }
    }

    pub fn absorb(&mut self, data: &[u8]) {
        self.digest = keccak(&[&self.digest, data]);
        self.counter = 0;
    }

    pub fn draw(&mut self) -> H {
        let r = keccak(&[&self.digest, &[0; 24], &self.counter.to_be_bytes()]);
        self.counter += 1;
        r
    }

    pub fn felt(&mut self) -> Fp {
        loop {
            let mut l = from_be(&self.draw());
            l[3] &= 0x0fff_ffff_ffff_ffff;
            if below_p(&l) {
                return Fp::from_mont(l);
            }
        }
    }

    pub fn felts(&mut self, n: usize) -> Vec<Fp> {
        (0..n).map(|_| self.felt()).collect()
    }

    pub fn indices(&mut self, num: usize, size: usize) -> Vec<usize> {
        let mut v = Vec::new();
        while v.len() < num {
            let d = self.draw();
            for k in 0..4 {
                let mut w = [0; 8];
                w.copy_from_slice(&d[8 * k..8 * k + 8]);
                v.push((u64::from_be_bytes(w) & (size as u64 - 1)) as usize);
            }
        }
        v.truncate(num);
        v.sort_unstable();
        v
    }
}

pub fn below_p(l: &[u64; 4]) -> bool {
    Nat::from_limbs(l) < Fp::modulus()
}

pub fn leaf_hash(row: &[Fp]) -> H {
    leaf_hash_with(row, &|_| false)
}

/// The leaf with some of the numbers written unreduced
fn leaf_hash_with(row: &[Fp], f: &dyn Fn(usize) -> bool) -> H {
    if row.len() == 1 {
        return unreduced(row[0], f(0));
    }
    let parts: Vec<H> = row.iter().enumerate().map(|(i, x)| unreduced(*x, f(i))).collect();
    let refs: Vec<&[u8]> = parts.iter().map(|p| &p[..]).collect();
    masked(&refs)
}

pub fn layers(leaves: &[H]) -> Vec<Vec<H>> {
    let mut r = vec![leaves.to_vec()];
    while r[0].len() > 1 {
        let l = r[0].chunks(2).map(|c| masked(&[&c[0], &c[1]])).collect();
        r.insert(0, l);
    }
    r
}

pub fn opening(layers: &[Vec<H>], indices: &[usize]) -> Vec<H> {
    let mut known: Vec<usize> = indices.to_vec();
    known.sort_unstable();
    known.dedup();
    let mut out = Vec::new();
    for d in (1..layers.len()).rev() {
        for &i in &known {
            if known.binary_search(&(i ^ 1)).is_err() {
                out.push(layers[d][i ^ 1]);
            }
        }
        known = known.iter().map(|i| i / 2).collect();
        known.dedup();
    }
    out
}

/// Number of hashes in an opening
pub fn opening_len(depth: usize, indices: &[usize]) -> usize {
    let mut known: Vec<usize> = indices.to_vec();
    known.sort_unstable();
    known.dedup();
    let mut n = 0;
    for _ in 0..depth {
        n += known.iter().filter(|&&i| known.binary_search(&(i ^ 1)).is_err()).count();
        known = known.iter().map(|i| i / 2).collect();
        known.dedup();
    }
    n
}

fn reconstruct(depth: usize, leaves: &BTreeMap<usize, H>, hashes: &[H]) -> Option<H> {
    let mut it = hashes.iter();
    let mut known = leaves.clone();
    for _ in 0..depth {
        let mut next = BTreeMap::new();
        for (&i, h) in &known {
            let v = match known.get(&(i ^ 1)) {
                Some(s) if i & 1 == 0 => masked(&[h, s]),
                Some(_) => continue,
                None => {
                    let s = it.next()?;
                    if i & 1 == 0 {
                        masked(&[h, s])
                    } else {
                        masked(&[s, h])
                    }
                }
            };
            let _ = next.insert(i / 2, v);
        }
        known = next;
    }
    if it.next().is_some() {
        return None;
    }
    known.get(&0).copied()
}

pub fn pow_challenge(digest: &H, bits: usize) -> H {
    keccak(&[&[0x01, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xed], digest, &[bits as u8]])
}

pub fn pow_zeros(challenge: &H, nonce: u64) -> usize {
    let d = keccak(&[challenge, &nonce.to_be_bytes()]);
    256 - Nat::from_be_bytes(&d).bits()
}

/// Departure of a prover from the protocol.
#[derive(Clone, Debug, PartialEq)]
pub enum Dev {
    Honest,
    /// The transcript does not absorb the k-th message
    SkipAbsorb(usize),
    /// The transcript starts from another public input
    OtherSeed(Vec<u8>),
    /// One out-of-domain constraint value is set so that the out-of-domain
    /// equation holds
    FudgeOods(usize),
    /// One claimed out-of-domain trace value is off; optionally the
    /// constraint value is adjusted to match
    TraceValue(usize, Fp, bool),
    /// One claimed out-of-domain constraint value is off
    ConstraintValue(usize, Fp),
    /// Commit to the constraint quotient on the whole evaluation domain,
    /// whatever its degree; optionally fudge the out-of-domain equation
    HighDegreeConstraint(bool),
    /// Commit to a trace column of too high a degree
    HighDegreeTrace(usize, u64),
    /// Commit, at a folding layer, to unrelated values: random, or of low degree
    FriLayer(usize, u64, bool),
    /// Fold with a challenge of the prover's choice
    FriChallenge(usize, Fp),
    /// One coefficient of the final polynomial is off
    LastLayer(usize, Fp),
    /// A nonce that falls short by at least one bit
    BadPow,
    /// The valid nonce after the smallest one, or the first from a given
    /// number onwards (acceptable)
    LaterPow(u64),
    /// Query positions of the prover's choice
    Queries(Vec<usize>),
    /// Constraint combination coefficients of the prover's choice
    Coefficients(u64),
    /// Out-of-domain point of the prover's choice
    OodsPoint(Fp),
    /// Write numbers as residue plus modulus: trace values (0) or constraint
    /// values (1) out of domain, final polynomial (2), rows of the trace (3) or
    /// of the constraint polynomials (4), every other number of a coset (5)
    Unreduced(usize),
    /// Commit to rows of the trace (0), of the constraint polynomials (1) or to
    /// cosets of folding layer k (2 + k) that are altered at a part of the
    /// positions, everything else being computed from the unaltered values
    Sparse(usize, u64, u64),
    /// Write, in place of the root of the trace (0), of the constraint
    /// polynomials (1) or of folding layer k (2 + k), another number that
    /// differs from it in one bit or altogether
    OtherRoot(usize, u64),
    /// One out-of-domain constraint value too many, chosen so that the
    /// out-of-domain equation holds if it is counted
    ExtraOods,
    /// The out-of-domain equation is made to hold, and the final polynomial
    /// is given with as many coefficients as it happens to have
    LongLast(usize),
}

fn root_written(dev: &Dev, which: usize, root: H) -> H {
    let mut r = root;
    if let Dev::OtherRoot(l, seed) = dev {
        if *l == which {
            let mut rng = Rng::new(*seed);
            if rng.next() & 1 == 0 {
                r[(rng.next() % 20) as usize] ^= 1 << (rng.next() % 8);
            } else {
                for b in r[..20].iter_mut() {
                    *b = rng.next() as u8;
                }
            }
        }
    }
    r
}

fn unreduced(x: Fp, yes: bool) -> H {
    if !yes {
        return bytes(x);
    }
    let mut r = [0; 32];
    r.copy_from_slice(&Nat::from_be_bytes(&bytes(x)).add(&Fp::modulus()).to_be_bytes(32));
    r
}

/// Alters one value in about one of `den` rows, and in at least one row
fn sparse(rows: &mut [Vec<Fp>], seed: u64, den: u64) {
    let mut rng = Rng::new(seed);
    let at = (rng.next() % rows.len() as u64) as usize;
    for (i, r) in rows.iter_mut().enumerate() {
        if i == at || rng.next() % den == 0 {
            let k = (rng.next() % r.len() as u64) as usize;
            r[k] = r[k] + Fp::one();
        }
    }
}

struct Out {
    coin:  Coin,
    proof: Vec<u8>,
    n:     usize,
    skip:  Option<usize>,
}

impl Out {
    fn write(&mut self, data: &[u8]) {
        self.proof.extend_from_slice(data);
        if self.skip != Some(self.n) {
            self.coin.absorb(data);
        }
        self.n += 1;
    }
}

/// Positions of the parts of a proof, for targeted alterations
#[derive(Clone, Debug, Default)]
pub struct Map {
    /// (part name, start, end)
    pub parts: Vec<(&'static str, usize, usize)>,
}

pub struct Combined {
    pub coef: Vec<Fp>,
    pub adj:  Vec<usize>,
}

/// Value of the combined constraint at a point
pub fn combined(s: &Sys, co: &Combined, x: Fp, t: &dyn Fn(usize, isize) -> Fp) -> Fp {
    let mut r = Fp::zero();
    for (k, c) in s.cons.iter().enumerate() {
        let v = c.e.eval(x, t, &s.claims).expect("pole outside the trace domain");
        r = r + (co.coef[2 * k] + co.coef[2 * k + 1] * x.pow(co.adj[k] as u64)) * v;
    }
    r
}

pub fn prove(s: &Sys, trace: &[Fp], dev: &Dev) -> Vec<u8> {
    prove_map(s, trace, dev).0
}

pub fn prove_map(s: &Sys, trace: &[Fp], dev: &Dev) -> (Vec<u8>, Map) {
    let n = s.rows;
    let m = n * s.blowup;
    let ed = s.eval_degree();
    let gen3 = Fp::from_u64(3);
    let wm = root(m);
    let wn = root(n);
    let mut map = Map::default();
    let seed = match dev {
        Dev::OtherSeed(v) => v.clone(),
        _ => s.seed.clone(),
    };
    let mut out = Out {
        coin:  Coin::new(&seed),
        proof: vec![],
        n:     0,
        skip:  match dev {
            Dev::SkipAbsorb(k) => Some(*k),
            _ => None,
        },
    };
    // Trace
    let mut polys: Vec<Vec<Fp>> = (0..s.cols)
        .map(|c| intt(&(0..n).map(|r| trace[r * s.cols + c]).collect::<Vec<_>>()))
        .collect();
    if let Dev::HighDegreeTrace(c, seed) = dev {
        let mut rng = Rng::new(*seed);
        // agrees with the column on the trace domain: add (X^n - 1) * q
        let p = &mut polys[*c];
        let d = m - n;
        p.resize(m, Fp::zero());
        for i in 0..d {
            let q = rand_felt(&mut rng);
            p[i] = p[i] - q;
            p[i + n] = p[i + n] + q;
        }
    }
    let x_of = |i: usize| gen3 * wm.pow(i as u64); // natural index
    let tl: Vec<Vec<Fp>> = polys.iter().map(|p| coset(p, m, gen3)).collect();
    let mut rows: Vec<Vec<Fp>> = (0..m).map(|j| tl.iter().map(|c| c[bitrev(m, j)]).collect()).collect();
    if let Dev::Sparse(0, seed, den) = dev {
        sparse(&mut rows, *seed, *den);
    }
    let ttree = layers(&rows.iter().map(|r| leaf_hash_with(r, &|_| *dev == Dev::Unreduced(3))).collect::<Vec<_>>());
    out.write(&root_written(dev, 0, ttree[0][0]));
    map.parts.push(("trace root", 0, out.proof.len()));
    // Constraints
    let mut coef = out.coin.felts(2 * s.cons.len());
    if let Dev::Coefficients(seed) = dev {
        let mut rng = Rng::new(*seed);
        for c in &mut coef {
            *c = rand_felt(&mut rng);
        }
    }
    let co = Combined {
        coef,
        adj: s.adjustments().into_iter().map(|a| a.expect("admissible")).collect(),
    };
    let size = match dev {
        Dev::HighDegreeConstraint(_) | Dev::HighDegreeTrace(..) => m,
        _ => n * ed,
    };
    let tc: Vec<Vec<Fp>> = polys.iter().map(|p| coset(p, size, gen3)).collect();
    let ws = root(size);
    let step = (size / n) as isize;
    let mut vals = Vec::with_capacity(size);
    let mut x = gen3;
    for i in 0..size {
        let t = |c: usize, o: isize| tc[c][wrap(i, o * step, size)];
        vals.push(combined(s, &co, x, &t));
        x = x * ws;
    }
    let mut cp = intt(&vals);
    let gi = gen3.inv();
    let mut f = Fp::one();
    for c in &mut cp {
        *c = *c * f;
        f = f * gi;
    }
    let a: Vec<Vec<Fp>> = (0..ed).map(|i| cp.iter().skip(i).step_by(ed).cloned().collect()).collect();
    let al: Vec<Vec<Fp>> = a.iter().map(|p| coset(p, m, gen3)).collect();
    let mut crows: Vec<Vec<Fp>> = (0..m).map(|j| al.iter().map(|c| c[bitrev(m, j)]).collect()).collect();
    if let Dev::Sparse(1, seed, den) = dev {
        sparse(&mut crows, *seed, *den);
    }
    let ctree = layers(&crows.iter().map(|r| leaf_hash_with(r, &|_| *dev == Dev::Unreduced(4))).collect::<Vec<_>>());
    let st = out.proof.len();
    out.write(&root_written(dev, 1, ctree[0][0]));
    map.parts.push(("constraint root", st, out.proof.len()));
    // Out of domain sampling
    let mut z = out.coin.felt();
    if let Dev::OodsPoint(p) = dev {
        z = *p;
    }
    let args = s.args();
    let wpow = |o: isize| wn.pow(o.rem_euclid(n as isize) as u64);
    let mut tv: Vec<Fp> = args.iter().map(|&(c, o)| horner(&polys[c], z * wpow(o))).collect();
    if let Dev::TraceValue(i, d, _) = dev {
        tv[*i] = tv[*i] + *d;
    }
    let zed = z.pow(ed as u64);
    let mut av: Vec<Fp> = a.iter().map(|p| horner(p, zed)).collect();
    let fudge = match dev {
        Dev::FudgeOods(i) => Some(*i),
        Dev::LongLast(_) => Some(0),
        Dev::TraceValue(_, _, true) | Dev::HighDegreeConstraint(true) => Some(0),
        Dev::HighDegreeTrace(..) => None,
        _ => None,
    };
    if let Some(i) = fudge {
        let lookup: HashMap<(usize, isize), Fp> = args.iter().cloned().zip(tv.iter().cloned()).collect();
        let t = |c: usize, o: isize| lookup[&(c, o)];
        let want = combined(s, &co, z, &t);
        let have = av.iter().enumerate().fold(Fp::zero(), |acc, (k, v)| acc + z.pow(k as u64) * *v);
        av[i] = av[i] + (want - have) * z.pow(i as u64).inv();
    }
    let counted = av.len();
    if *dev == Dev::ExtraOods {
        let lookup: HashMap<(usize, isize), Fp> = args.iter().cloned().zip(tv.iter().cloned()).collect();
        let t = |c: usize, o: isize| lookup[&(c, o)];
        let want = combined(s, &co, z, &t);
        let have = av.iter().enumerate().fold(Fp::zero(), |acc, (k, v)| acc + z.pow(k as u64) * *v);
        av.push((want - have) * z.pow(counted as u64).inv());
    }
    if let Dev::ConstraintValue(i, d) = dev {
        av[*i] = av[*i] + *d;
    }
    let st = out.proof.len();
    for v in &tv {
        out.write(&unreduced(*v, *dev == Dev::Unreduced(0)));
    }
    map.parts.push(("out-of-domain trace values", st, out.proof.len()));
    let st = out.proof.len();
    for v in &av {
        out.write(&unreduced(*v, *dev == Dev::Unreduced(1)));
    }
    map.parts.push(("out-of-domain constraint values", st, out.proof.len()));
    let oc = out.coin.felts(tv.len() + av.len());
    // P on the evaluation domain; batch of inverses
    let mut p = vec![Fp::zero(); m];
    let xs: Vec<Fp> = {
        let mut v = Vec::with_capacity(m);
        let mut x = gen3;
        for _ in 0..m {
            v.push(x);
            x = x * wm;
        }
        v
    };
    let mut add_term = |vals: &[Fp], at: Fp, value: Fp, c: Fp| {
        let inv = batch_inv(&xs.iter().map(|x| *x - at).collect::<Vec<_>>());
        for i in 0..m {
            p[i] = p[i] + c * (vals[i] - value) * inv[i];
        }
    };
    for (k, &(c, o)) in args.iter().enumerate() {
        add_term(&tl[c], z * wpow(o), tv[k], oc[k]);
    }
    for k in 0..counted {
        add_term(&al[k], zed, av[k], oc[tv.len() + k]);
    }
    let _ = x_of;
    // FRI
    let mut layer: Vec<Fp> = (0..m).map(|j| p[bitrev(m, j)]).collect();
    let mut fri: Vec<(usize, Vec<Fp>, Vec<Vec<H>>)> = Vec::new();
    let odd = |i: usize| *dev == Dev::Unreduced(5) && i % 2 == 1;
    let st = out.proof.len();
    for (k, &folds) in s.layout.iter().enumerate() {
        if let Dev::FriLayer(l, seed, low) = dev {
            if *l == k {
                let mut rng = Rng::new(*seed);
                if *low {
                    let d = (layer.len() / s.blowup).max(1);
                    let q: Vec<Fp> = (0..d).map(|_| rand_felt(&mut rng)).collect();
                    let v = coset(&q, layer.len(), Fp::one());
                    layer = (0..layer.len()).map(|j| v[bitrev(layer.len(), j)]).collect();
                } else {
                    for v in &mut layer {
                        *v = rand_felt(&mut rng);
                    }
                }
            }
        }
        let cs = 1_usize << folds;
        let mut cosets: Vec<Vec<Fp>> = layer.chunks(cs).map(|c| c.to_vec()).collect();
        if let Dev::Sparse(l, seed, den) = dev {
            if *l == 2 + k {
                sparse(&mut cosets, *seed, *den);
            }
        }
        let committed: Vec<Fp> = cosets.concat();
        let tree = layers(&committed.chunks(cs).map(|c| leaf_hash_with(c, &|i| odd(i))).collect::<Vec<_>>());
        out.write(&root_written(dev, 2 + k, tree[0][0]));
        let mut alpha = out.coin.felt();
        if let Dev::FriChallenge(l, v) = dev {
            if *l == k {
                alpha = *v;
            }
        }
        fri.push((cs, committed, tree));
        for _ in 0..folds {
            layer = fold(&layer, alpha);
            alpha = alpha.square();
        }
    }
    map.parts.push(("folding roots", st, out.proof.len()));
    let nc = match dev {
        Dev::LongLast(k) => (layer.len() / s.blowup + *k).min(layer.len()),
        _ => layer.len() / s.blowup,
    };
    let natural: Vec<Fp> = (0..layer.len()).map(|j| layer[bitrev(layer.len(), j)]).collect();
    let mut last = intt(&natural);
    last.truncate(nc);
    if let Dev::LastLayer(i, d) = dev {
        last[*i] = last[*i] + *d;
    }
    let mut buf = Vec::new();
    for c in &last {
        buf.extend_from_slice(&unreduced(*c, *dev == Dev::Unreduced(2)));
    }
    let st = out.proof.len();
    out.write(&buf);
    map.parts.push(("final polynomial", st, out.proof.len()));
    // Proof of work
    let ch = pow_challenge(&out.coin.digest, s.pow);
    let mut nonce = 0_u64;
    match dev {
        Dev::BadPow => {
            while pow_zeros(&ch, nonce) + 1 != s.pow {
                nonce += 1;
            }
        }
        Dev::LaterPow(0) => {
            while pow_zeros(&ch, nonce) < s.pow {
                nonce += 1;
            }
            nonce += 1;
            while pow_zeros(&ch, nonce) < s.pow {
                nonce += 1;
            }
        }
        Dev::LaterPow(from) => {
            nonce = *from;
            while pow_zeros(&ch, nonce) < s.pow {
                nonce = nonce.wrapping_add(1);
            }
        }
        _ => {
            while pow_zeros(&ch, nonce) < s.pow {
                nonce += 1;
            }
        }
    }
    let st = out.proof.len();
    out.write(&nonce.to_be_bytes());
    map.parts.push(("nonce", st, out.proof.len()));
    // Queries
    let mut q = out.coin.indices(s.queries, m);
    if let Dev::Queries(v) = dev {
        q = v.clone();
    }
    let st = out.proof.len();
    for &i in &q {
        let mut b = Vec::new();
        for v in &rows[i] {
            b.extend_from_slice(&unreduced(*v, *dev == Dev::Unreduced(3)));
        }
        out.write(&b);
    }
    map.parts.push(("trace rows", st, out.proof.len()));
    let st = out.proof.len();
    for h in opening(&ttree, &q) {
        out.write(&h);
    }
    map.parts.push(("trace opening", st, out.proof.len()));
    let st = out.proof.len();
    for &i in &q {
        let mut b = Vec::new();
        for v in &crows[i] {
            b.extend_from_slice(&unreduced(*v, *dev == Dev::Unreduced(4)));
        }
        out.write(&b);
    }
    map.parts.push(("constraint rows", st, out.proof.len()));
    let st = out.proof.len();
    for h in opening(&ctree, &q) {
        out.write(&h);
    }
    map.parts.push(("constraint opening", st, out.proof.len()));
    let mut prev = q;
    for (cs, layer, tree) in &fri {
        let mut idx: Vec<usize> = prev.iter().map(|i| i / cs).collect();
        idx.dedup();
        let st = out.proof.len();
        for i in &idx {
            for j in i * cs..(i + 1) * cs {
                if prev.binary_search(&j).is_err() {
                    out.write(&unreduced(layer[j], odd(j)));
                }
            }
        }
        map.parts.push(("folding values", st, out.proof.len()));
        let st = out.proof.len();
        for h in opening(tree, &idx) {
            out.write(&h);
        }
        map.parts.push(("folding opening", st, out.proof.len()));
        prev = idx;
    }
    (out.proof, map)
}

pub fn batch_inv(v: &[Fp]) -> Vec<Fp> {
    let mut pre = Vec::with_capacity(v.len());
    let mut acc = Fp::one();
    for x in v {
        pre.push(acc);
        acc = acc * *x;
    }
    let mut i = acc.inv();
    let mut r = vec![Fp::zero(); v.len()];
    for k in (0..v.len()).rev() {
        r[k] = pre[k] * i;
        i = i * v[k];
    }
    r
}

fn fold(layer: &[Fp], alpha: Fp) -> Vec<Fp> {
    let l = layer.len();
    let wi = root(l).inv();
    (0..l / 2)
        .map(|j| {
            let xi = wi.pow(bitrev(l / 2, j) as u64);
            let (a, b) = (layer[2 * j], layer[2 * j + 1]);
            (a + b) + alpha * xi * (a - b)
        })
        .collect()
}

struct In<'a> {
    coin: Coin,
    b:    &'a [u8],
    at:   usize,
}

type R<T> = Result<T, &'static str>;

impl<'a> In<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.b.len() - self.at {
            return Err("too short");
        }
        let r = &self.b[self.at..self.at + n];
        self.at += n;
        self.coin.absorb(r);
        Ok(r)
    }

    fn hash(&mut self) -> R<H> {
        let mut h = [0; 32];
        h.copy_from_slice(self.take(32)?);
        Ok(h)
    }

    fn felts(&mut self, n: usize) -> R<Vec<Fp>> {
        self.take(32 * n)?
            .chunks(32)
            .map(|c| {
                let l = from_be(c);
                if below_p(&l) {
                    Ok(Fp::from_mont(l))
                } else {
                    Err("not a field element")
                }
            })
            .collect()
    }
}

/// Parsed proof, for the serializer check
#[derive(Default, Debug)]
pub struct Parsed {
    pub trace_root:      H,
    pub constraint_root: H,
    pub trace_values:    Vec<Fp>,
    pub constraint_oods: Vec<Fp>,
    pub fri_roots:       Vec<H>,
    pub last:            Vec<Fp>,
    pub nonce:           u64,
    pub trace_rows:      Vec<Fp>,
    pub trace_opening:   Vec<H>,
    pub constraint_rows: Vec<Fp>,
    pub constraint_open: Vec<H>,
    pub fri_values:      Vec<Vec<Fp>>,
    pub fri_openings:    Vec<Vec<H>>,
}

pub fn verify(s: &Sys, proof: &[u8]) -> R<Parsed> {
    verify_parts(s, proof, None)
}

/// With `ends`, the lists of a length that depends on the queries (openings,
/// and values of every layer of foldings) end there; what they have beyond
/// what is needed is ignored
pub fn verify_parts(s: &Sys, proof: &[u8], ends: Option<&[usize]>) -> R<Parsed> {
    let mut ends = ends.map(|e| e.iter());
    let mut end = |ch: &mut In<'_>| -> R<()> {
        if let Some(e) = &mut ends {
            let e = *e.next().ok_or("a list is missing")?;
            if ch.at > e {
                return Err("a list is too short");
            }
            ch.at = e;
        }
        Ok(())
    };
    let n = s.rows;
    let m = n * s.blowup;
    let ed = s.eval_degree();
    let depth = m.trailing_zeros() as usize;
    let gen3 = Fp::from_u64(3);
    let wn = root(n);
    let wm = root(m);
    let mut out = Parsed::default();
    let mut ch = In {
        coin: Coin::new(&s.seed),
        b:    proof,
        at:   0,
    };
    out.trace_root = ch.hash()?;
    let co = Combined {
        coef: ch.coin.felts(2 * s.cons.len()),
        adj:  s.adjustments().into_iter().map(|a| a.expect("admissible")).collect(),
    };
    out.constraint_root = ch.hash()?;
    let z = ch.coin.felt();
    let args = s.args();
    for _ in 0..args.len() {
        out.trace_values.push(ch.felts(1)?[0]);
    }
    for _ in 0..ed {
        out.constraint_oods.push(ch.felts(1)?[0]);
    }
    let oc = ch.coin.felts(args.len() + ed);
    let mut alphas = Vec::new();
    let mut size = m;
    for f in &s.layout {
        size >>= f;
        out.fri_roots.push(ch.hash()?);
        alphas.push(ch.coin.felt());
    }
    out.last = ch.felts(size / s.blowup)?;
    let challenge = pow_challenge(&ch.coin.digest, s.pow);
    let mut nb = [0; 8];
    nb.copy_from_slice(ch.take(8)?);
    out.nonce = u64::from_be_bytes(nb);
    if pow_zeros(&challenge, out.nonce) < s.pow {
        return Err("proof of work");
    }
    let q = ch.coin.indices(s.queries, m);
    let wpow = |o: isize| wn.pow(o.rem_euclid(n as isize) as u64);
    let mut read = |ch: &mut In<'_>, width: usize, root: &H, rows: &mut Vec<Fp>, op: &mut Vec<H>| -> R<BTreeMap<usize, Vec<Fp>>> {
        let mut map: BTreeMap<usize, Vec<Fp>> = BTreeMap::new();
        for &i in &q {
            let v = ch.felts(width)?;
            rows.extend_from_slice(&v);
            if let Some(old) = map.insert(i, v.clone()) {
                if old != v {
                    return Err("inconsistent duplicate row");
                }
            }
        }
        for _ in 0..opening_len(depth, &q) {
            op.push(ch.hash()?);
        }
        end(ch)?;
        let leaves: BTreeMap<usize, H> = map.iter().map(|(i, v)| (*i, leaf_hash(v))).collect();
        if reconstruct(depth, &leaves, op).as_ref() != Some(root) {
            return Err("opening");
        }
        Ok(map)
    };
    let troot = out.trace_root;
    let croot = out.constraint_root;
    let trows = read(&mut ch, s.cols, &troot, &mut out.trace_rows, &mut out.trace_opening)?;
    let crows = read(&mut ch, ed, &croot, &mut out.constraint_rows, &mut out.constraint_open)?;
    // first layer values at the queries
    let zed = z.pow(ed as u64);
    let mut values: BTreeMap<usize, Fp> = BTreeMap::new();
    for (&i, t) in &trows {
        let x = gen3 * wm.pow(bitrev(m, i) as u64);
        let mut v = Fp::zero();
        for (k, &(c, o)) in args.iter().enumerate() {
            v = v + oc[k] * (t[c] - out.trace_values[k]) * (x - z * wpow(o)).inv();
        }
        let d = (x - zed).inv();
        for k in 0..ed {
            v = v + oc[args.len() + k] * (crows[&i][k] - out.constraint_oods[k]) * d;
        }
        let _ = values.insert(i, v);
    }
    let mut size = m;
    for (k, &folds) in s.layout.iter().enumerate() {
        let cs = 1_usize << folds;
        let mut idx: Vec<usize> = values.keys().map(|i| i / cs).collect();
        idx.dedup();
        let mut cosets: BTreeMap<usize, Vec<Fp>> = BTreeMap::new();
        let mut given = Vec::new();
        for &i in &idx {
            let mut c = Vec::new();
            for j in i * cs..(i + 1) * cs {
                c.push(match values.get(&j) {
                    Some(v) => *v,
                    None => {
                        let v = ch.felts(1)?[0];
                        given.push(v);
                        v
                    }
                });
            }
            let _ = cosets.insert(i, c);
        }
        end(&mut ch)?;
        let d = (size / cs).trailing_zeros() as usize;
        let mut op = Vec::new();
        for _ in 0..opening_len(d, &idx) {
            op.push(ch.hash()?);
        }
        end(&mut ch)?;
        let leaves: BTreeMap<usize, H> = cosets.iter().map(|(i, v)| (*i, leaf_hash(v))).collect();
        if reconstruct(d, &leaves, &op) != Some(out.fri_roots[k]) {
            return Err("folding opening");
        }
        out.fri_values.push(given);
        out.fri_openings.push(op);
        values = BTreeMap::new();
        for (i, c) in cosets {
            let mut v = c;
            let mut alpha = alphas[k];
            let mut l = size;
            let mut base = i * cs;
            while v.len() > 1 {
                let wi = root(l).inv();
                v = v
                    .chunks(2)
                    .enumerate()
                    .map(|(j, p)| {
                        let xi = wi.pow(bitrev(l / 2, base / 2 + j) as u64);
                        (p[0] + p[1]) + alpha * xi * (p[0] - p[1])
                    })
                    .collect();
                alpha = alpha.square();
                l /= 2;
                base /= 2;
            }
            let _ = values.insert(i, v[0]);
        }
        size /= cs;
    }
    if ch.at != proof.len() {
        return Err("too long");
    }
    let wl = root(size);
    for (i, v) in &values {
        if horner(&out.last, wl.pow(bitrev(size, *i) as u64)) != *v {
            return Err("final polynomial");
        }
    }
    let lookup: HashMap<(usize, isize), Fp> = args.iter().cloned().zip(out.trace_values.iter().cloned()).collect();
    let t = |c: usize, o: isize| lookup[&(c, o)];
    let want = combined(s, &co, z, &t);
    let have = out
        .constraint_oods
        .iter()
        .enumerate()
        .fold(Fp::zero(), |acc, (k, v)| acc + z.pow(k as u64) * *v);
    if want != have {
        return Err("out-of-domain equation");
    }
    Ok(out)
}
