//! C07: batch inversion and geometric series.
use super::common::*;
use vpbt::{ensure, ensure_eq, no_panic, CaseResult, Facet, Gen, Property};
use zkp_primefield::{
    geometric_series::{geometric_series, root_series, GeometricIter},
    *,
};

fn len(g: &mut Gen) -> usize {
    match g.below(6) {
        0 => g.usize_in(0, 3),
        1 => {
            let k = g.below(9);
            let d = g.usize_in(0, 2);
            ((1_usize << k) + d).saturating_sub(1)
        }
        2 => g.usize_in(0, 600),
        _ => g.usize_in(0, 40),
    }
}

fn batch<K: Pair>(g: &mut Gen) -> CaseResult {
    let n = len(g);
    let mut v: Vec<O<K>> = vec![];
    for i in 0..n {
        let e = if i > 0 && g.one_in(4) {
            // repeat or invert an earlier element
            let j = g.below(i as u64) as usize;
            if g.bool() {
                v[j]
            } else {
                v[j].inv()
            }
        } else {
            elem::<K::O>(g)
        };
        v.push(if e.is_zero() { O::<K>::one() } else { e });
    }
    let zeros = if g.one_in(4) && n > 0 { g.usize_in(1, 2) } else { 0 };
    for _ in 0..zeros {
        let i = g.below(n as u64) as usize;
        v[i] = O::<K>::zero();
    }
    g.describe(|| format!("{} n={} zeros={} {:?}", K::NAME, n, zeros, v.iter().take(8).collect::<Vec<_>>()));
    if n > 1 {
        g.nontrivial();
    }
    g.label_if(zeros > 0, "with zero");
    g.label_if(n == 0, "empty");
    let s: Vec<F<K>> = v.iter().map(f::<K>).collect();
    // stale destination contents
    let mut d: Vec<F<K>> = (0..n).map(|_| f::<K>(&elem::<K::O>(g))).collect();
    if g.one_in(16) {
        // a destination of another length is refused, not filled in part
        let k = if n > 0 && g.bool() { g.below(n as u64) as usize } else { n + 1 + g.below(3) as usize };
        let mut short: Vec<F<K>> = vec![F::<K>::one(); k];
        let t = s.clone();
        ensure!(
            no_panic(|| invert_batch_src_dst(&t, &mut short)).is_err(),
            "{} inverses were written to a destination of length {}",
            n,
            k
        );
    }
    let a = no_panic(|| invert_batch(&s));
    let b = no_panic(|| {
        invert_batch_src_dst(&s, &mut d);
        d
    });
    for (what, r) in vec![("invert_batch", a), ("invert_batch_src_dst", b)] {
        match r {
            Ok(r) => {
                ensure_eq!(r.len(), n, "{} length", what);
                for i in 0..n {
                    // no inverse of zero can be right
                    if v[i].is_zero() {
                        ensure!(r[i].is_zero(), "{}: zero at {} got the inverse {:?}", what, i, r[i]);
                    } else {
                        same::<K>(&r[i], &v[i].inv(), &format!("{} at {} of {}", what, i, n))?;
                    }
                }
            }
            Err(e) => ensure!(zeros > 0, "{} panics without a zero: {}", what, e),
        }
    }
    Ok(())
}

/// Thousands of elements, drawn from one recorded seed.
fn batch_large(g: &mut Gen) -> CaseResult {
    let n = if g.one_in(4) { g.usize_in(60_000, 70_000) } else { g.usize_in(600, 9000) };
    let seed = g.u64();
    let zero = if g.one_in(4) { Some(g.below(n as u64) as usize) } else { None };
    g.describe(|| format!("n={} zero at {:?}", n, zero));
    g.nontrivial();
    let mut r = vpbt::gen::Rng::new(seed);
    let mut v: Vec<vpbt::Fp> = (0..n)
        .map(|_| vpbt::Fp::from_mont([r.next(), r.next(), r.next(), (r.next() >> 6) | 1]))
        .collect();
    if let Some(i) = zero {
        v[i] = vpbt::Fp::zero();
    }
    let s: Vec<FieldElement> = v.iter().map(fe).collect();
    let mut d = vec![FieldElement::one(); n];
    let a = no_panic(|| invert_batch(&s));
    let b = no_panic(|| {
        invert_batch_src_dst(&s, &mut d);
        d
    });
    for (what, r) in vec![("invert_batch", a), ("invert_batch_src_dst", b)] {
        match r {
            Ok(r) => {
                ensure_eq!(r.len(), n, "{} length", what);
                for i in 0..n {
                    let got = vpbt::Fp::from_mont(*r[i].as_montgomery().as_limbs());
                    if v[i].is_zero() {
                        ensure!(got.is_zero(), "{}: zero at {} got the inverse {:?}", what, i, got);
                    } else {
                        ensure!(got * v[i] == vpbt::Fp::one(), "{} at {} of {}", what, i, n);
                    }
                }
            }
            Err(e) => ensure!(zero.is_some(), "{} panics without a zero: {}", what, e),
        }
    }
    Ok(())
}

fn batch_both(g: &mut Gen) -> CaseResult {
    if g.one_in(3) {
        batch::<Scalar>(g)
    } else {
        batch::<Base>(g)
    }
}

/// Model: first element, ratio, remaining length (None: practically infinite).
struct Model {
    base:  vpbt::Fp,
    ratio: vpbt::Fp,
    len:   usize,
}

fn series(g: &mut Gen) -> CaseResult {
    let mut log = vec![];
    let rooted = g.one_in(3);
    let (mut it, mut m): (GeometricIter<FieldElement>, Model) = if rooted {
        let k = *g.pick(&[0_usize, 1, 2, 4, 5, 7, 8, 10, 14, 16, 20, 35, 64, 70, 128, 256, 1 << 16, 1 << 20, 5 << 31, 1 << 33, 1 << 62]);
        log.push(format!("root_series({})", k));
        let root = match FieldElement::root(k) {
            Some(r) => vpbt::Fp::from_mont(*r.as_montgomery().as_limbs()),
            None if k == 0 => return Ok(()),
            None => return vpbt::fail(format!("no root of order {}", k)),
        };
        (root_series(k), Model { base: vpbt::Fp::one(), ratio: root, len: k })
    } else {
        let b = elem::<vpbt::fp::StarkP>(g);
        let r = elem::<vpbt::fp::StarkP>(g);
        log.push(format!("geometric_series({:?}, {:?})", b, r));
        (geometric_series(&fe(&b), &fe(&r)), Model { base: b, ratio: r, len: usize::max_value() })
    };
    let steps = g.usize_in(1, 14);
    if steps > 2 {
        g.nontrivial();
    }
    for _ in 0..steps {
        match g.below(7) {
            0 | 1 => {
                let k = g.usize_in(1, 5);
                log.push(format!("next x{}", k));
                for _ in 0..k {
                    let n = it.next();
                    if m.len == 0 {
                        ensure!(n.is_none(), "next() past the end after {:?}", log);
                    } else {
                        match n {
                            Some(n) => same::<Base>(&n, &m.base, &format!("next() after {:?}", log))?,
                            None => return vpbt::fail(format!("next() ends early after {:?}", log)),
                        }
                        m.base = m.base * m.ratio;
                        m.len -= 1;
                    }
                }
            }
            2 => {
                let i = if g.bool() { g.usize_in(0, 40) } else { g.u64() as usize };
                log.push(format!("at {}", i));
                same::<Base>(&it.at(i), &(m.base * m.ratio.pow(i as u64)), &format!("at after {:?}", log))?;
            }
            3 => {
                let n = match g.below(8) {
                    0 => m.len,
                    1 => g.usize_in(0, m.len.min(1 << 40)),
                    2 => g.usize_in(0, m.len.min(usize::max_value() - 1)),
                    _ => g.usize_in(0, m.len.min(50)),
                };
                log.push(format!("skip {}", n));
                it = it.skip(n);
                m.base = m.base * m.ratio.pow(n as u64);
                m.len -= n;
            }
            4 => {
                let n = match g.below(8) {
                    0 => g.u64() as usize,
                    1 => g.usize_in(0, 1 << 40),
                    2 => m.len,
                    _ => g.usize_in(0, 60),
                };
                log.push(format!("take {}", n));
                it = it.take(n);
                m.len = m.len.min(n);
            }
            5 => {
                let n = *g.pick(&[1_usize, 2, 3, 4, 5, 8, 64, 1000, 1 << 16, (1 << 32) + 3, 1 << 40]);
                if m.len < 1 << 60 {
                    log.push(format!("step_by {}", n));
                    it = it.step_by(n);
                    m.ratio = m.ratio.pow(n as u64);
                    // A trailing incomplete stride may or may not yield its first
                    // element; nothing beyond the series is ever yielded.
                    let (lo, hi) = (m.len / n, (m.len + n - 1) / n);
                    let l = it.size_hint().0;
                    ensure!(l == lo || l == hi, "a series of {} has {} elements after {:?}", m.len, l, log);
                    m.len = l;
                }
            }
            _ => {
                let c = it.clone();
                ensure!(c == it, "clone differs after {:?}", log);
                if m.len < 200 {
                    let all: Vec<FieldElement> = c.collect();
                    ensure_eq!(all.len(), m.len, "length of the collected series after {:?}", log);
                    let mut e = m.base;
                    for (i, x) in all.iter().enumerate() {
                        same::<Base>(x, &e, &format!("element {} after {:?}", i, log))?;
                        e = e * m.ratio;
                    }
                }
            }
        }
        ensure_eq!(it.size_hint(), (m.len, Some(m.len)), "size_hint after {:?}", log);
    }
    g.describe(|| format!("{:?}", log));
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C07",
        rule: "batch: two elements or more; series: three operations or more",
        assumptions: &["skipping beyond the end is outside the property", "a stride that does not divide the length may drop or keep the first element of the incomplete last stride", "a panic counts as the refusal to invert a zero"],
        facets: vec![
            Facet::new("batch-inversion", 20_000, 200_000, batch_both),
            Facet::new("batch-large", 100, 1_500, batch_large),
            Facet::new("series", 600_000, 5_000_000, series),
        ],
    }
}
