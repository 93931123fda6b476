//! C30: the primitives of the contracts.
use crate::{
    chain::*,
    expr::*,
    proto::{self, Coin, H},
};
use sol::{Machine, V, W};
use std::collections::BTreeSet;
use vpbt::{ensure, ensure_eq, gen::Rng, CaseResult, Facet, Fp, Gen, Nat, Property};
use zkp_stark::{Constraints, RationalExpression};

const SRC: &str = "
contract HarnessPrims is Fri, ProofOfWork {
    using PrimeField for uint256;
    using PrimeField for uint256[];
    using PublicCoin for PublicCoin.Coin;
    using PrimeField for PrimeField.EvalX;
    using Iterators for Iterators.IteratorUint;
    using Utils for *;

    function t_mul(uint256 a, uint256 b) public pure returns (uint256) { return a.fmul(b); }
    function t_mul_mont(uint256 a, uint256 b) public pure returns (uint256) { return a.fmul_mont(b); }
    function t_add(uint256 a, uint256 b) public pure returns (uint256) { return a.fadd(b); }
    function t_sub(uint256 a, uint256 b) public pure returns (uint256) { return a.fsub(b); }
    function t_pow(uint256 a, uint256 b) public returns (uint256) { return a.fpow(b); }
    function t_inverse(uint256 a) public returns (uint256) { return a.inverse(); }
    function t_to_mont(uint256 a) public pure returns (uint256) { return a.to_montgomery(); }
    function t_from_mont(uint256 a) public pure returns (uint256) { return a.from_montgomery(); }
    function t_from_mont_bytes(bytes32 a) public pure returns (uint256) { return PrimeField.from_montgomery_bytes(a); }
    function t_generator_power(uint8 a) public returns (uint256) { return PrimeField.generator_power(a); }
    function t_root(uint256 a) public returns (uint256) { return PrimeField.root(a); }
    function t_horner(uint256[] memory c, uint256 x) public pure returns (uint256) { return c.horner_eval(x); }
    function t_batch_invert(uint256[] memory a) public returns (uint256[] memory, uint256[] memory) {
        uint256[] memory before = new uint256[](2);
        uint256[] memory r = new uint256[](a.length);
        uint256[] memory afterwards = new uint256[](1);
        PrimeField.batch_invert(a, r);
        require(before[0] == 0 && before[1] == 0 && before.length == 2 && afterwards.length == 1 && afterwards[0] == 0, 'memory');
        return (r, a);
    }
    function t_lookup(uint8 lg, uint256 i) public returns (uint256, uint256) {
        PrimeField.EvalX memory e = PrimeField.init_eval(lg);
        return (e.lookup(i), e.eval_domain_size);
    }

    function t_bit_reverse(uint256 a, uint8 b) public pure returns (uint256) { return a.bit_reverse(b); }
    function t_bit_reverse2(uint256 a, uint256 b) public pure returns (uint256) { return a.bit_reverse2(b); }
    function t_num_bits(uint64 a) public pure returns (uint8) { return Utils.num_bits(a); }
    function t_sort(uint256[] memory a) public pure returns (uint256[] memory) { a.sort(); return a; }
    function t_copy(uint256[] memory a, uint256[] memory b) public pure returns (uint256[] memory, uint256[] memory) {
        a.deep_copy(b);
        return (a, b);
    }
    function t_copy32(bytes32[] memory a, bytes32[] memory b) public pure returns (bytes32[] memory, bytes32[] memory) {
        a.deep_copy(b);
        return (a, b);
    }
    function t_truncate32(bytes32[] memory a, uint256 n) public pure returns (bytes32[] memory) { a.truncate(n); return a; }
    function t_truncate64(uint64[] memory a, uint256 n) public pure returns (uint64[] memory) { a.truncate(n); return a; }
    function t_batch_into(uint256[] memory a, uint256 k) public returns (uint256[] memory) {
        uint256[] memory r = new uint256[](k);
        PrimeField.batch_invert(a, r);
        return r;
    }
    function t_truncate(uint256[] memory a, uint256 n) public pure returns (uint256[] memory) { a.truncate(n); return a; }
    function t_iterate(uint256[] memory a, uint256 k) public pure returns (uint256[] memory, bool) {
        Iterators.IteratorUint memory it = Iterators.init_iterator(a);
        uint256[] memory r = new uint256[](k);
        for (uint256 i = 0; i < k; i++) { r[i] = it.next(); }
        return (r, it.has_next());
    }

    // kinds: 0 write_bytes32, 1 write_many_bytes32, 2 write_many_field_elements, 3 write_bytes8, 4 write_layer,
    // 5 read_bytes32, 6 read_field_element, 7 read_many_field_elements, 8 read_many_bytes32
    function t_coin(bytes memory seed, uint256[] memory kinds, uint256[][] memory data) public pure
        returns (uint256[][] memory, bytes32, uint64)
    {
        PublicCoin.Coin memory coin = PublicCoin.init_coin(seed);
        uint256[][] memory out = new uint256[][](kinds.length);
        for (uint256 i = 0; i < kinds.length; i++) {
            uint256 k = kinds[i];
            uint256[] memory d = data[i];
            if (k == 0) {
                coin.write_bytes32(bytes32(d[0]));
            } else if (k == 1) {
                bytes32[] memory b = new bytes32[](d.length);
                for (uint256 j = 0; j < d.length; j++) { b[j] = bytes32(d[j]); }
                coin.write_many_bytes32(b);
            } else if (k == 2) {
                coin.write_many_field_elements(d);
            } else if (k == 3) {
                coin.write_bytes8(bytes8(uint64(d[0])));
            } else if (k == 4) {
                coin.write_layer(d);
            } else if (k == 5) {
                uint256[] memory o = new uint256[](1);
                o[0] = uint256(coin.read_bytes32());
                out[i] = o;
            } else if (k == 6) {
                uint256[] memory o = new uint256[](1);
                o[0] = coin.read_field_element();
                out[i] = o;
            } else if (k == 7) {
                out[i] = coin.read_many_field_elements(d[0]);
            } else {
                out[i] = PrimeField.from_bytes_array_raw(coin.read_many_bytes32(d[0]));
            }
        }
        return (out, coin.digest, coin.counter);
    }
    function t_work(bytes32 digest, uint64 counter, bytes8 nonce, uint8 bits) public pure returns (bool, bytes32, uint64) {
        PublicCoin.Coin memory coin = PublicCoin.Coin({ digest: digest, counter: counter });
        bool r = check_proof_of_work(coin, nonce, bits);
        return (r, coin.digest, coin.counter);
    }
    function t_queries(bytes32 digest, uint64 counter, uint8 bits, uint8 n) public pure returns (uint256[] memory) {
        PublicCoin.Coin memory coin = PublicCoin.Coin({ digest: digest, counter: counter });
        return get_queries(coin, bits, n);
    }
    function t_fold(uint256[] memory coset, uint256 x_inv, uint256 a) public returns (uint256, uint256) {
        return fold_coset(coset, x_inv, a);
    }
    function t_leaf(uint256[] memory leaf) public pure returns (bytes32) { return merkle_leaf_hash(leaf); }
    function t_merkle(bytes32 root, bytes32[] memory leaves, uint256[] memory indices, bytes32[] memory path) public returns (bool) {
        return verify_merkle_proof(root, leaves, indices, path);
    }
}
contract HarnessLayout is DefaultConstraintSystem(1, 1, 1, 16) {
    function t_layout(uint8 lg) public view returns (uint8[] memory) { return default_fri_layout(lg); }
    function layout_col_major() internal override pure returns (uint256[] memory) { return new uint256[](0); }
    function layout_rows() internal override pure returns (uint256[] memory) { return new uint256[](0); }
    function initalize_system(bytes calldata) external view override
        returns (ProofTypes.ProofParameters memory, PublicCoin.Coin memory) { revert(); }
    function constraint_calculations(ProofTypes.OodsEvaluationData memory, uint256[] memory, uint256, uint256[] memory, uint256[] memory)
        public override returns (uint256[] memory, uint256) { revert(); }
}
";

thread_local! {
    static M: (Machine, W, W) = {
        let m = machine(SRC);
        let a = ran(m.deploy("HarnessPrims", &[])).unwrap();
        let b = ran(m.deploy("HarnessLayout", &[])).unwrap();
        (m, a, b)
    };
}

fn call(f: &str, args: &[V]) -> Result<Vec<V>, String> {
    M.with(|(m, a, b)| {
        m.limit(100_000_000);
        ran(m.call(if f == "t_layout" { *b } else { *a }, f, args))
    })
}

fn word(x: &Nat) -> V {
    V::W(w(&x.to_be_bytes(32)))
}

fn wf(x: Fp) -> V {
    V::W(plain(x))
}

fn wfs(v: &[Fp]) -> V {
    V::L(v.iter().map(|x| wf(*x)).collect())
}

fn ws(v: &[u64]) -> V {
    V::L(v.iter().map(|x| n(*x)).collect())
}

fn any_word(g: &mut Gen) -> Nat {
    let v = match g.below(6) {
        0 => Nat::from_u64(g.below(4)),
        1 => Nat::one().shl(256).sub(&Nat::from_u64(1 + g.below(4))),
        2 => Fp::modulus().add(&Nat::from_u64(g.below(3))),
        3 => Nat::one().shl(g.below(256) as usize),
        _ => Nat::from_limbs(&[g.u64(), g.u64(), g.u64(), g.u64()]),
    };
    v.low_bits(256)
}

fn expect(f: &str, args: &[V], want: &[V]) -> CaseResult {
    match call(f, args) {
        Ok(r) => {
            ensure!(r == want, "{}({:?}) gives {:?}, should give {:?}", &f[2..], args, r, want);
            Ok(())
        }
        Err(e) => vpbt::fail(format!("{}({:?}) fails with {}, should give {:?}", &f[2..], args, e, want)),
    }
}

fn refused(f: &str, args: &[V]) -> CaseResult {
    if let Ok(r) = call(f, args) {
        return vpbt::fail(format!("{}({:?}) gives {:?}, should fail", &f[2..], args, r));
    }
    Ok(())
}

fn field(g: &mut Gen) -> CaseResult {
    let p = Fp::modulus();
    let a = felt(g);
    let b = felt(g);
    let k = g.below(12);
    g.describe(|| format!("operation {} on {:?}, {:?}", k, a.to_nat().to_hex(), b.to_nat().to_hex()));
    if !a.is_zero() && !b.is_zero() {
        g.nontrivial();
    }
    let r = Fp::from_nat(&Nat::one().shl(256));
    match k {
        0 => expect("t_mul", &[wf(a), wf(b)], &[wf(a * b)]),
        1 => expect("t_add", &[wf(a), wf(b)], &[wf(a + b)]),
        2 => expect("t_sub", &[wf(a), wf(b)], &[wf(a - b)]),
        3 => expect("t_mul_mont", &[mont(a), mont(b)], &[mont(a * b)]),
        4 => {
            let e = any_word(g);
            expect("t_pow", &[wf(a), word(&e)], &[wf(a.pow_nat(&e))])
        }
        5 if !a.is_zero() => expect("t_inverse", &[wf(a)], &[wf(a.inv())]),
        6 => {
            expect("t_to_mont", &[wf(a)], &[wf(a * r)])?;
            expect("t_to_mont", &[wf(a)], &[mont(a)])
        }
        7 => {
            expect("t_from_mont_bytes", &[mont(a)], &[wf(a)])?;
            expect("t_from_mont", &[mont(a)], &[wf(a)])
        }
        8 => {
            let lg = g.below(256);
            g.label_if(lg <= 192, "root exists");
            if lg > 192 {
                return refused("t_generator_power", &[n(lg)]);
            }
            let e = p.sub(&Nat::one()).shr(lg as usize);
            expect("t_generator_power", &[n(lg)], &[wf(Fp::from_u64(3).pow_nat(&e))])
        }
        9 => {
            let order = match g.below(4) {
                0 => Nat::from_u64(1 + g.below(40)),
                1 => Nat::one().shl(g.below(200) as usize),
                2 => Nat::one().shl(g.below(190) as usize).mul(&Nat::from_u64(*g.pick(&[3, 5, 7, 11, 15, 13]))),
                _ => p.sub(&Nat::from_u64(g.below(3))),
            };
            let (q, m) = p.sub(&Nat::one()).div_rem(&order);
            g.label_if(m.is_zero(), "root exists");
            if !m.is_zero() {
                return refused("t_root", &[word(&order)]);
            }
            expect("t_root", &[word(&order)], &[wf(Fp::from_u64(3).pow_nat(&q))])
        }
        10 => {
            let lg = g.below(64);
            let i = g.u64();
            let want = root_of(lg).pow(i);
            expect("t_lookup", &[n(lg), n(i)], &[wf(want), n(1 << lg)])
        }
        _ => {
            // round trip
            match call("t_from_mont", &[call("t_to_mont", &[wf(a)]).unwrap().remove(0)]) {
                Ok(v) => {
                    ensure_eq!(v[0], wf(a), "round trip");
                    Ok(())
                }
                Err(e) => vpbt::fail(e),
            }
        }
    }
}

fn root_of(lg: u64) -> Fp {
    Fp::from_u64(3).pow_nat(&Fp::modulus().sub(&Nat::one()).shr(lg as usize))
}

fn polynomials(g: &mut Gen) -> CaseResult {
    let k = match g.below(4) {
        0 => g.usize_in(0, 3),
        1 => g.usize_in(6, 20),
        2 => *g.pick(&[8, 9, 16, 17, 24, 25, 32, 33, 64, 65]),
        _ => g.usize_in(0, 70),
    };
    let mut rng = Rng::new(g.u64());
    let big = g.one_in(4);
    let c: Vec<Fp> = (0..k).map(|_| if big { Fp::zero() - Fp::from_u64(1 + rng.next() % 2) } else { rand_felt(&mut rng) }).collect();
    let x = felt(g);
    g.describe(|| format!("{} coefficients", k));
    if k > 1 {
        g.nontrivial();
    }
    expect("t_horner", &[wfs(&c), wf(x)], &[wf(horner(&c, x))])?;
    if k > 0 {
        let v: Vec<Fp> = c.iter().map(|x| if x.is_zero() { Fp::one() } else { *x }).collect();
        let want: Vec<Fp> = v.iter().map(|x| x.inv()).collect();
        expect("t_batch_invert", &[wfs(&v)], &[wfs(&want), wfs(&v)])?;
        let other = if g.bool() { k + g.usize_in(1, 3) } else { k - g.usize_in(1, k) };
        ensure!(
            call("t_batch_into", &[wfs(&v), n(other as u64)]).is_err(),
            "the inverses of {} numbers are written to an array of {}",
            k,
            other
        );
    }
    Ok(())
}

fn bits(g: &mut Gen) -> CaseResult {
    let k = g.usize_in(0, 40);
    let a = if k == 0 { 0 } else { g.u64() >> (64 - k) };
    g.describe(|| format!("{} bits, {}", k, a));
    if k > 1 {
        g.nontrivial();
    }
    let rev = |a: u64, k: usize| if k == 0 { 0 } else { a.reverse_bits() >> (64 - k) };
    expect("t_bit_reverse", &[n(a), n(k as u64)], &[n(rev(a, k))])?;
    expect("t_bit_reverse2", &[n(a), n(k as u64)], &[n(rev(a, k))])?;
    let d = match g.below(3) {
        0 => 1_u64 << g.below(64),
        1 => (1_u64 << g.below(64)).wrapping_sub(1).max(1),
        _ => (g.u64() >> g.below(64)).max(1),
    };
    expect("t_num_bits", &[n(d)], &[n(63 - u64::from(d.leading_zeros()))])
}

fn arrays(g: &mut Gen) -> CaseResult {
    let k = if g.one_in(40) { g.usize_in(31, 300) } else { g.usize_in(0, 30) };
    let small = g.bool();
    let mut a: Vec<u64> = (0..k).map(|_| if small { g.below(8) } else { g.u64() }).collect();
    let b: Vec<u64> = (0..k + g.usize_in(0, 3)).map(|_| g.u64()).collect();
    if k > 1 {
        g.nontrivial();
    }
    g.describe(|| format!("{:?}", a));
    let mut c = b.clone();
    c[..k].copy_from_slice(&a);
    expect("t_copy", &[ws(&a), ws(&b)], &[ws(&a), ws(&c)])?;
    expect("t_copy32", &[ws(&a), ws(&b)], &[ws(&a), ws(&c)])?;
    let t = if g.one_in(4) { k + g.usize_in(0, 2) } else { g.usize_in(0, k + 2) };
    for f in &["t_truncate32", "t_truncate64"] {
        if t <= k {
            expect(f, &[ws(&a), n(t as u64)], &[ws(&a[..t])])?;
        } else {
            refused(f, &[ws(&a), n(t as u64)])?;
        }
    }
    if t <= k {
        expect("t_truncate", &[ws(&a), n(t as u64)], &[ws(&a[..t])])?;
        expect("t_iterate", &[ws(&a), n(t as u64)], &[ws(&a[..t]), V::W((t < k).into())])?;
    } else {
        refused("t_truncate", &[ws(&a), n(t as u64)])?;
        refused("t_iterate", &[ws(&a), n(t as u64)])?;
    }
    let before = ws(&a);
    a.sort_unstable();
    expect("t_sort", &[before], &[ws(&a)])
}

fn coin(g: &mut Gen) -> CaseResult {
    let k = g.usize_in(0, 40);
    let seed = g.bytes(k);
    let steps = g.usize_in(1, 12);
    // now and then more draws than a byte counts
    let long = g.one_in(30);
    g.label_if(long, "hundreds of draws");
    let mut c = Coin::new(&seed);
    let mut kinds = vec![];
    let mut data = vec![];
    let mut want = vec![];
    let mut reads = false;
    for _ in 0..steps {
        let kind = g.below(9);
        let count = if long && kind >= 7 { g.usize_in(200, 600) } else { g.usize_in(0, 5) };
        let v: Vec<H> = (0..count.min(5))
            .map(|_| {
                let mut h = [0; 32];
                h.copy_from_slice(&any_word(g).to_be_bytes(32));
                h
            })
            .collect();
        let mut d: Vec<V> = vec![];
        let mut o: Vec<V> = vec![];
        match kind {
            0 => {
                let h = v.first().copied().unwrap_or([7; 32]);
                d.push(hash(&h));
                c.absorb(&h);
            }
            1 | 2 => {
                for h in &v {
                    d.push(hash(h));
                    c.absorb(h);
                }
            }
            3 => {
                let x = g.u64();
                d.push(n(x));
                c.absorb(&x.to_be_bytes());
            }
            4 => {
                d = v.iter().map(hash).collect();
                c.absorb(&v.concat());
            }
            5 => {
                o.push(hash(&c.draw()));
                reads = true;
            }
            6 => o.push(mont(c.felt())),
            7 => {
                d.push(n(count as u64));
                o = c.felts(count).into_iter().map(mont).collect();
            }
            _ => {
                d.push(n(count as u64));
                o = (0..count).map(|_| hash(&c.draw())).collect();
            }
        }
        kinds.push(kind);
        data.push(V::L(d));
        want.push(V::L(o));
    }
    g.describe(|| format!("operations {:?}", kinds));
    if reads && steps > 2 {
        g.nontrivial();
    }
    expect("t_coin", &[V::B(seed), ws(&kinds), V::L(data)], &[V::L(want), hash(&c.digest), n(c.counter)])
}

fn digest(g: &mut Gen) -> H {
    proto::keccak(&[&g.u64().to_be_bytes()])
}

fn work(g: &mut Gen) -> CaseResult {
    let d = digest(g);
    let counter = g.below(5);
    let bits = match g.below(3) {
        0 => 0,
        1 => g.usize_in(1, 10),
        _ => g.usize_in(1, 255),
    };
    let ch = proto::pow_challenge(&d, bits);
    let mut x = g.u64();
    if bits <= 10 && g.bool() {
        // on either side of the threshold
        let target = if g.bool() { bits } else { bits.saturating_sub(1) };
        while proto::pow_zeros(&ch, x) != target {
            x = x.wrapping_add(1);
        }
    }
    let ok = proto::pow_zeros(&ch, x) >= bits;
    g.label_if(ok, "accepted");
    if bits > 0 {
        g.nontrivial();
    }
    g.describe(|| format!("{} bits, nonce {}", bits, x));
    let mut c = Coin { digest: d, counter };
    c.absorb(&x.to_be_bytes());
    expect("t_work", &[hash(&d), n(counter), nonce(x), n(bits as u64)], &[V::W(ok.into()), hash(&c.digest), n(c.counter)])
}

fn queries(g: &mut Gen) -> CaseResult {
    let d = digest(g);
    let counter = g.below(3);
    let lg = g.usize_in(0, 40);
    let k = g.usize_in(0, 255);
    g.nontrivial();
    g.describe(|| format!("{} queries of {} bits", k, lg));
    let want: Vec<u64> = Coin { digest: d, counter }.indices(k, 1 << lg).into_iter().map(|x| x as u64).collect();
    expect("t_queries", &[hash(&d), n(counter), n(lg as u64), n(k as u64)], &[ws(&want)])
}

fn fold(g: &mut Gen) -> CaseResult {
    let lg = g.usize_in(1, 3);
    let cs = 1 << lg;
    let mut rng = Rng::new(g.u64());
    let coset: Vec<Fp> = (0..cs).map(|_| if g.one_in(5) { felt(g) } else { rand_felt(&mut rng) }).collect();
    let x = {
        let v = felt(g);
        if v.is_zero() {
            Fp::one()
        } else {
            v
        }
    };
    let a = felt(g);
    if !a.is_zero() {
        g.nontrivial();
    }
    g.describe(|| format!("coset of {}", cs));
    // values at x * w^bitrev(i); each step combines f(y) and f(-y)
    let mut v = coset.clone();
    let mut y = x;
    let mut alpha = a;
    while v.len() > 1 {
        let l = v.len();
        let wl = root(l);
        v = (0..l / 2)
            .map(|j| {
                let at = y * wl.pow(proto::bitrev(l / 2, j) as u64);
                (v[2 * j] + v[2 * j + 1]) + alpha * at.inv() * (v[2 * j] - v[2 * j + 1])
            })
            .collect();
        y = y.square();
        alpha = alpha.square();
    }
    expect("t_fold", &[wfs(&coset), wf(x.inv()), wf(a)], &[wf(v[0]), wf(y.inv())])
}

fn merkle(g: &mut Gen) -> CaseResult {
    let depth = g.usize_in(0, 7);
    let size = 1_usize << depth;
    let mut rng = Rng::new(g.u64());
    let wide = g.usize_in(1, 3);
    let rows: Vec<Vec<Fp>> = (0..size).map(|_| (0..wide).map(|_| rand_felt(&mut rng)).collect()).collect();
    let leaves: Vec<H> = rows.iter().map(|r| proto::leaf_hash(r)).collect();
    let i = g.below(size as u64) as usize;
    expect("t_leaf", &[monts(&rows[i])], &[hash(&leaves[i])])?;
    let tree = proto::layers(&leaves);
    let mut idx = BTreeSet::new();
    let dense = g.one_in(5);
    if dense {
        idx.extend(0..size);
    } else {
        for _ in 0..g.usize_in(1, 8) {
            let k = g.below(size as u64) as usize;
            let _ = idx.insert(k);
            if g.one_in(3) {
                let _ = idx.insert(k ^ if size > 1 { 1 } else { 0 });
            }
        }
    }
    let idx: Vec<usize> = idx.into_iter().collect();
    let mut top = tree[0][0];
    let mut lv: Vec<H> = idx.iter().map(|i| leaves[*i]).collect();
    let mut at: Vec<u64> = idx.iter().map(|i| (i + size) as u64).collect();
    let mut path = proto::opening(&tree, &idx);
    g.describe(|| format!("depth {}, leaves {:?}", depth, idx));
    g.label_if(idx.len() == 1, "one leaf");
    let mut ok = true;
    match g.below(8) {
        0 => {
            top[g.below(20) as usize] ^= 1 << g.below(8);
            ok = false;
            g.label("other root");
        }
        1 => {
            let k = g.below(lv.len() as u64) as usize;
            lv[k][g.below(32) as usize] ^= 1 << g.below(8);
            ok = false;
            g.label("other leaf");
        }
        2 if !path.is_empty() => {
            let k = g.below(path.len() as u64) as usize;
            path[k][g.below(32) as usize] ^= 1 << g.below(8);
            ok = false;
            g.label("other decommitment");
        }
        3 if !path.is_empty() => {
            let k = g.below(path.len() as u64) as usize;
            let _ = path.remove(k);
            ok = false;
            g.label("short decommitment");
        }
        4 if lv.len() > 1 => {
            let k = g.below(lv.len() as u64 - 1) as usize;
            lv.swap(k, k + 1);
            ok = false;
            g.label("leaves swapped");
        }
        5 if idx.len() == 1 && size > 1 => {
            // the same path claimed for another position
            at[0] = (size + (idx[0] ^ (1 << g.below(depth as u64)))) as u64;
            ok = false;
            g.label("other position");
        }
        6 => {
            let what = match g.below(3) {
                0 if lv.len() > 1 => {
                    let _ = lv.pop();
                    "fewer leaves than indices"
                }
                1 => {
                    lv.clear();
                    at.clear();
                    "no leaves"
                }
                _ => {
                    lv.push(top);
                    "more leaves than indices"
                }
            };
            g.label(what);
            let args = [hash(&top), hashes(&lv), ws(&at), hashes(&path)];
            ensure!(call("t_merkle", &args).is_err(), "an opening with {} is not refused as invalid input", what);
            return Ok(());
        }
        _ => {}
    }
    if depth > 0 {
        g.nontrivial();
    }
    let args = [hash(&top), hashes(&lv), ws(&at), hashes(&path)];
    match call("t_merkle", &args) {
        Ok(v) => {
            ensure_eq!(v[0], V::W(ok.into()), "verdict on depth {}, indices {:?}", depth, at);
            Ok(())
        }
        Err(e) if ok => vpbt::fail(format!("an opening of depth {}, indices {:?} makes the verifier fail with {}", depth, at, e)),
        Err(_) => Ok(()),
    }
}

/// Layouts of the contracts and of the prover agree
fn layout(g: &mut Gen) -> CaseResult {
    let lg = g.below(41);
    g.nontrivial();
    g.describe(|| format!("2^{} rows", lg));
    let reductions = if lg > 8 { lg - 8 } else { lg };
    let mut want = vec![3; reductions as usize / 3];
    if reductions % 3 != 0 {
        want.push(reductions % 3);
    }
    expect("t_layout", &[n(lg)], &[ws(&want)])?;
    let c = Constraints::from_expressions((1 << lg, 1), vec![], vec![RationalExpression::X]).unwrap();
    let have: Vec<u64> = c.fri_layout.iter().map(|x| *x as u64).collect();
    expect("t_layout", &[n(lg)], &[ws(&have)])
}

pub fn property() -> Property {
    Property {
        id: "C30",
        rule: "a case counts as non-trivial when the arguments are not all degenerate (zero, empty, of length one)",
        assumptions: &[
            "the contracts run under an interpreter of the harness (no Solidity compiler is available here)",
            "arguments within the domain of each function: reduced field elements, non-zero where inverted, positions \
             below the size, sorted distinct Merkle indices",
        ],
        facets: vec![
            Facet::new("field", 300000, 1200000, field),
            Facet::new("polynomials", 60000, 300000, polynomials),
            Facet::new("bits", 150000, 600000, bits),
            Facet::new("arrays", 80000, 400000, arrays),
            Facet::new("coin", 80000, 400000, coin),
            Facet::new("work", 80000, 400000, work),
            Facet::new("queries", 8000, 45000, queries),
            Facet::new("fold", 80000, 400000, fold),
            Facet::new("merkle", 150000, 800000, merkle),
            Facet::new("layout", 600, 1500, layout),
        ],
    }
}
