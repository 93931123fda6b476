//! C08: number-theoretic transforms.
use super::common::*;
#[cfg(not(feature = "nostd"))]
use std::sync::OnceLock;
use vpbt::{ensure, ensure_eq, fp::StarkP, CaseResult, Facet, Fp, Gen, Property};
use zkp_primefield::{
    fft::{fft_vec_recursive, get_twiddles, permute, permute_index, small, transpose_square_stretch},
    *,
};

#[cfg(not(feature = "nostd"))]
fn pools() -> &'static Vec<rayon::ThreadPool> {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    P.get_or_init(|| {
        [1_usize, 2, 3, 5, 8, 16]
            .iter()
            .map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().expect("thread pool"))
            .collect()
    })
}

#[cfg(not(feature = "nostd"))]
fn in_pool<T: Send>(g: &mut Gen, f: impl FnOnce() -> T + Send) -> T {
    let p = pools();
    let i = g.below(p.len() as u64) as usize;
    p[i].install(f)
}

#[cfg(feature = "nostd")]
fn in_pool<T: Send>(_: &mut Gen, f: impl FnOnce() -> T + Send) -> T {
    f()
}

fn rev(n: usize, i: usize) -> usize {
    let mut r = 0;
    let mut k = 1;
    while k < n {
        r = 2 * r + usize::from(i & k != 0);
        k *= 2;
    }
    r
}

/// A root of unity of the oracle: a power of 3.
pub fn oracle_root(log2: usize) -> Fp {
    let p1 = Fp::modulus().sub(&vpbt::Nat::one());
    Fp::from_u64(3).pow_nat(&p1.shr(log2))
}

/// Evaluations of the polynomial with these coefficients at all powers of w, in
/// natural order. Direct sums up to 64 coefficients, even/odd splitting above.
fn dft(c: &[Fp], w: Fp) -> Vec<Fp> {
    let n = c.len();
    if n <= 64 {
        let mut pw = vec![Fp::one(); n];
        for i in 1..n {
            pw[i] = pw[i - 1] * w;
        }
        return (0..n)
            .map(|i| (0..n).fold(Fp::zero(), |s, j| s + c[j] * pw[(i * j) % n]))
            .collect();
    }
    let even: Vec<Fp> = c.iter().step_by(2).copied().collect();
    let odd: Vec<Fp> = c.iter().skip(1).step_by(2).copied().collect();
    let (e, o) = (dft(&even, w * w), dft(&odd, w * w));
    let mut r = vec![Fp::zero(); n];
    let mut x = Fp::one();
    for i in 0..n / 2 {
        let t = o[i] * x;
        r[i] = e[i] + t;
        r[i + n / 2] = e[i] - t;
        x = x * w;
    }
    r
}

fn vector(g: &mut Gen, n: usize) -> Vec<Fp> {
    match g.below(6) {
        0 => {
            let mut v = vec![Fp::zero(); n];
            let i = g.below(n as u64) as usize;
            v[i] = elem::<StarkP>(g);
            v
        }
        1 => vec![elem::<StarkP>(g); n],
        2 => {
            let m = g.usize_in(1, 6);
            let pal: Vec<Fp> = (0..m).map(|_| elem::<StarkP>(g)).collect();
            (0..n).map(|i| pal[(i * i + i / 3) % m]).collect()
        }
        _ => {
            // pseudo-random from one recorded seed, so that large vectors stay cheap
            let mut r = vpbt::gen::Rng::new(g.u64());
            (0..n)
                .map(|_| Fp::from_mont([r.next(), r.next(), r.next(), r.next() >> 6]))
                .collect()
        }
    }
}

fn to(v: &[Fp]) -> Vec<FieldElement> {
    v.iter().map(fe).collect()
}

fn cmp(got: &[FieldElement], want: &[Fp], what: &str) -> CaseResult {
    ensure_eq!(got.len(), want.len(), "{} length", what);
    for i in 0..got.len() {
        same::<Base>(&got[i], &want[i], &format!("{} at position {} of {}", what, i, got.len()))?;
    }
    Ok(())
}

fn permuted(v: &[Fp]) -> Vec<Fp> {
    let n = v.len();
    (0..n).map(|i| v[rev(n, i)]).collect()
}

fn transform(g: &mut Gen, max: usize) -> CaseResult {
    let k = g.usize_in(0, max);
    let n = 1 << k;
    let c = vector(g, n);
    let w = oracle_root(k);
    let op = g.below(8);
    let cof = if g.one_in(16) { *g.pick(&[Fp::zero(), Fp::one(), Fp::zero() - Fp::one()]) } else { elem::<StarkP>(g) };
    // only the forward transform is defined for a zero shift
    let cof = if cof.is_zero() && op != 2 { Fp::from_u64(3) } else { cof };
    g.label_if(op == 2 && cof.is_zero(), "zero cofactor");
    g.describe(|| format!("n=2^{} op={} cofactor={:?} c={:?}", k, op, cof, c.iter().take(4).collect::<Vec<_>>()));
    if n > 1 {
        g.nontrivial();
    }
    g.label_if(n >= 1024, "square-root radix");
    g.label_if(n < 1024, "recursive");
    let shift = |c: &[Fp], q: Fp| {
        let mut x = Fp::one();
        c.iter()
            .map(|e| {
                let r = *e * x;
                x = x * q;
                r
            })
            .collect::<Vec<_>>()
    };
    let inv_n = Fp::from_u64(n as u64).inv();
    let inverse = |c: &[Fp]| dft(c, w.inv()).iter().map(|x| *x * inv_n).collect::<Vec<_>>();
    let mut v = to(&c);
    match op {
        0 => {
            in_pool(g, || v.fft());
            cmp(&v, &permuted(&dft(&c, w)), "fft")?;
        }
        1 => {
            in_pool(g, || v.ifft());
            cmp(&v, &permuted(&inverse(&c)), "ifft")?;
        }
        2 => {
            in_pool(g, || v.fft_cofactor(&fe(&cof)));
            cmp(&v, &permuted(&dft(&shift(&c, cof), w)), "fft_cofactor")?;
        }
        3 => {
            // the coefficients of the polynomial with these values on the coset, permuted
            in_pool(g, || v.ifft_cofactor(&fe(&cof)));
            cmp(&v, &permuted(&shift(&inverse(&c), cof.inv())), "ifft_cofactor")?;
        }
        4 => {
            // another primitive root
            let e = 2 * g.below(1 << 20) + 1;
            let r = w.pow(e);
            in_pool(g, || v.fft_root(&fe(&r)));
            cmp(&v, &permuted(&dft(&c, r)), "fft_root")?;
        }
        5 => {
            #[cfg(not(feature = "nostd"))]
            in_pool(g, || zkp_primefield::fft::radix_sqrt(&mut v, &fe(&w)));
            #[cfg(feature = "nostd")]
            v.fft_root(&fe(&w));
            cmp(&v, &permuted(&dft(&c, w)), "radix_sqrt")?;
        }
        6 => {
            let tw = in_pool(g, || get_twiddles(&fe(&w), n));
            let mut half = vec![];
            let mut x = Fp::one();
            for _ in 0..n / 2 {
                half.push(x);
                x = x * w;
            }
            cmp(&tw, &permuted(&half), "get_twiddles")?;
            fft_vec_recursive(&mut v, &tw, 0, 1, 1);
            cmp(&v, &permuted(&dft(&c, w)), "fft_vec_recursive")?;
        }
        _ => {
            // round trips through the public operations
            in_pool(g, || {
                v.fft_cofactor(&fe(&cof));
                permute(&mut v);
                v.ifft_cofactor(&fe(&cof));
                permute(&mut v);
            });
            cmp(&v, &c, "fft_cofactor then ifft_cofactor")?;
            in_pool(g, || {
                v.ifft();
                permute(&mut v);
                v.fft();
                permute(&mut v);
            });
            cmp(&v, &c, "ifft then fft")?;
        }
    }
    Ok(())
}

fn small_sizes(g: &mut Gen) -> CaseResult {
    transform(g, 7)
}

fn medium_sizes(g: &mut Gen) -> CaseResult {
    transform(g, 13)
}

fn large_sizes(g: &mut Gen) -> CaseResult {
    // 2^14 to 2^17
    let k = g.usize_in(14, 17);
    let n = 1 << k;
    let c = vector(g, n);
    let w = oracle_root(k);
    let cof = Fp::from_u64(3 + g.below(100));
    g.describe(|| format!("n=2^{}", k));
    g.nontrivial();
    let mut v = vec![FieldElement::zero(); n];
    let src = to(&c);
    in_pool(g, || {
        v.clone_shifted(&src, &fe(&cof));
        v.fft();
    });
    let mut x = Fp::one();
    let shifted: Vec<Fp> = c
        .iter()
        .map(|e| {
            let r = *e * x;
            x = x * cof;
            r
        })
        .collect();
    cmp(&v, &permuted(&dft(&shifted, w)), "clone_shifted + fft")?;
    if g.bool() {
        in_pool(g, || {
            permute(&mut v);
            v.ifft();
            permute(&mut v);
        });
        cmp(&v, &shifted, "ifft")
    } else {
        in_pool(g, || {
            permute(&mut v);
            v.ifft_cofactor(&fe(&cof));
            permute(&mut v);
        });
        cmp(&v, &c, "ifft_cofactor")
    }
}

/// 2^18 to 2^21: a polynomial with few terms, so that every one of its values
/// is a short sum of powers, and back to its coefficients.
fn huge_sizes(g: &mut Gen) -> CaseResult {
    let k = g.usize_in(18, 21);
    let n = 1_usize << k;
    let w = oracle_root(k);
    let terms: Vec<(usize, Fp)> = (0..g.usize_in(1, 4))
        .map(|_| (g.below(n as u64) as usize, Fp::from_u64(1 + g.u64() % 1000)))
        .collect();
    let coset = g.bool();
    let cof = if coset { Fp::from_u64(3 + g.below(100)) } else { Fp::one() };
    g.describe(|| format!("n=2^{} cofactor={:?} terms={:?}", k, cof, terms));
    g.nontrivial();
    let mut v = vec![FieldElement::zero(); n];
    let mut want = vec![Fp::zero(); n];
    for (i, c) in &terms {
        v[*i] += &fe(c);
        let mut x = *c * cof.pow(*i as u64);
        let step = w.pow(*i as u64);
        for e in want.iter_mut() {
            *e = *e + x;
            x = x * step;
        }
    }
    let coefficients = v.clone();
    let cf = fe(&cof);
    in_pool(g, || if coset { v.fft_cofactor(&cf) } else { v.fft() });
    cmp(&v, &permuted(&want), "fft of few terms")?;
    in_pool(g, || {
        permute(&mut v);
        if coset {
            v.ifft_cofactor(&cf)
        } else {
            v.ifft()
        }
        permute(&mut v);
    });
    for i in 0..n {
        ensure!(v[i] == coefficients[i], "coefficient {} of 2^{} after the round trip", i, k);
    }
    Ok(())
}

/// Several interleaved transforms with stride, count and offset.
fn strided(g: &mut Gen) -> CaseResult {
    let k = g.usize_in(0, 9);
    let n = 1_usize << k;
    let s = if g.one_in(6) { 1 << g.usize_in(6, 9) } else { 1_usize << g.usize_in(0, 4) };
    if n * s > 1 << 13 {
        return Ok(());
    }
    // twiddles may be for a larger transform
    let extra = g.usize_in(0, 2);
    let tw = get_twiddles(&fe(&oracle_root(k + extra)), n << extra);
    let w = oracle_root(k);
    let c = vector(g, n * s);
    let full = g.bool();
    let (offset, count) = if full {
        (0, s)
    } else {
        let o = g.below(s as u64) as usize;
        (o, g.usize_in(1, s - o))
    };
    g.describe(|| format!("n=2^{} stride={} offset={} count={} extra={}", k, s, offset, count, extra));
    if n > 1 && s > 1 {
        g.nontrivial();
    }
    let mut v = to(&c);
    fft_vec_recursive(&mut v, &tw, offset, count, s);
    let mut want = c.clone();
    for o in offset..offset + count {
        let col: Vec<Fp> = (0..n).map(|i| c[i * s + o]).collect();
        let t = permuted(&dft(&col, w));
        for i in 0..n {
            want[i * s + o] = t[i];
        }
    }
    cmp(&v, &want, "fft_vec_recursive")
}

fn small_radix(g: &mut Gen) -> CaseResult {
    let r = *g.pick(&[2_usize, 4, 8]);
    let s = g.usize_in(1, 7);
    let o = g.usize_in(0, 9);
    let tail = g.usize_in(0, 3);
    let c = (0..o + s * (r - 1) + 1 + tail).map(|_| elem::<StarkP>(g)).collect::<Vec<_>>();
    let k = r.trailing_zeros() as usize;
    let w = oracle_root(k);
    g.describe(|| format!("radix {} offset {} stride {}", r, o, s));
    g.nontrivial();
    let tw = get_twiddles(&fe(&w), r);
    let mut v = to(&c);
    match r {
        2 => small::radix_2(&mut v, o, s),
        4 => small::radix_4(&mut v, &tw, o, s),
        _ => small::radix_8(&mut v, &tw, o, s),
    }
    let col: Vec<Fp> = (0..r).map(|i| c[o + i * s]).collect();
    let t = permuted(&dft(&col, w));
    let mut want = c.clone();
    for i in 0..r {
        want[o + i * s] = t[i];
    }
    cmp(&v, &want, "small radix")?;
    // twiddled butterfly
    let x = elem::<StarkP>(g);
    let mut v = to(&c);
    small::radix_2_twiddle(&mut v, &fe(&x), o, s);
    let mut want = c.clone();
    want[o] = c[o] + x * c[o + s];
    want[o + s] = c[o] - x * c[o + s];
    cmp(&v, &want, "radix_2_twiddle")
}

fn moves(g: &mut Gen) -> CaseResult {
    match g.below(4) {
        0 => {
            let k = g.usize_in(0, 63);
            let n = 1_usize << k;
            let i = g.u64() as usize & (n - 1);
            g.describe(|| format!("permute_index(2^{}, {})", k, i));
            g.nontrivial();
            ensure_eq!(permute_index(n, i), rev(n, i), "permute_index(2^{}, {})", k, i);
        }
        1 => {
            let k = g.usize_in(0, 11);
            let n = 1_usize << k;
            g.describe(|| format!("permute 2^{}", k));
            g.nontrivial();
            let mut v: Vec<usize> = (0..n).collect();
            permute(&mut v);
            for (i, x) in v.iter().enumerate() {
                ensure_eq!(*x, rev(n, i), "permute at {} of {}", i, n);
            }
        }
        2 => {
            let stretch = g.usize_in(1, 2);
            let mut n = if g.one_in(500) {
                g.usize_in(130, 1300)
            } else if g.one_in(5) { g.usize_in(0, 130) } else { g.usize_in(0, 40) };
            if stretch == 1 {
                n &= !1;
            }
            g.describe(|| format!("transpose {} x {} x {}", n, n, stretch));
            g.nontrivial();
            let mut v: Vec<usize> = (0..n * n * stretch).collect();
            transpose_square_stretch(&mut v, n, stretch);
            for r in 0..n {
                for c in 0..n {
                    for s in 0..stretch {
                        ensure_eq!(
                            v[(c * n + r) * stretch + s],
                            (r * n + c) * stretch + s,
                            "transpose {}x{}x{} at ({},{},{})",
                            n,
                            n,
                            stretch,
                            c,
                            r,
                            s
                        );
                    }
                }
            }
        }
        _ => {
            // clone_shifted of any length
            let n = if g.one_in(3) { g.usize_in(1000, 9000) } else { g.usize_in(0, 64) };
            let q = if g.one_in(16) { Fp::zero() } else { elem::<StarkP>(g) };
            let c = if n == 0 { vec![] } else { vector(g, n) };
            let src = to(&c);
            let mut v: Vec<FieldElement> = vec![fe(&Fp::from_u64(7)); n];
            g.describe(|| format!("clone_shifted {} by {:?}", n, q));
            if n > 1 {
                g.nontrivial();
            }
            in_pool(g, || v.clone_shifted(&src, &fe(&q)));
            let mut x = Fp::one();
            for i in 0..n {
                same::<Base>(&v[i], &(c[i] * x), &format!("clone_shifted at {} of {}", i, n))?;
                x = x * q;
            }
            ensure!(v.len() == n, "length");
        }
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C08",
        rule: "a transform is non-trivial from two elements up (strided: and a stride above one); every permutation and transposition counts",
        assumptions: &[
            "lengths up to 2^17 with dense vectors, up to 2^21 with few terms, are generated",
            "the inverse transforms take values in natural order and return permuted coefficients, as the trait documents",
            "transposition is defined for even sizes (stretch 1) and all sizes (stretch 2)",
        ],
        facets: vec![
            Facet::new("small-sizes", 100_000, 500_000, small_sizes),
            Facet::new("medium-sizes", 8_000, 40_000, medium_sizes),
            Facet::new("large-sizes", 150, 600, large_sizes),
            Facet::new("huge-sizes", 40, 200, huge_sizes),
            Facet::new("strided", 8_000, 50_000, strided),
            Facet::new("small-radix", 30_000, 500_000, small_radix),
            Facet::new("moves", 20_000, 300_000, moves),
        ],
    }
}
