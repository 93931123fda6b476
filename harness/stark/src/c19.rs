//! C19: constraint expressions.
use super::expr::*;
use std::{
    collections::{hash_map::DefaultHasher, BTreeSet},
    hash::{Hash, Hasher},
};
use vpbt::{ensure, ensure_eq, gen::Rng, no_panic, CaseResult, Facet, Fp, Gen, Property};
use zkp_stark::RationalExpression as RE;

/// Any tree. `tp`: trace cells may occur below polynomials.
pub fn tree(g: &mut Gen, depth: usize, claims: &[Vec<Fp>], tp: bool) -> E {
    tree_(g, depth, claims, tp, true)
}

fn tree_(g: &mut Gen, depth: usize, claims: &[Vec<Fp>], tp: bool, t: bool) -> E {
    if depth == 0 || g.one_in(6) {
        return match g.below(6) {
            0 => E::X,
            1 => E::C(felt(g)),
            _ if !t => E::X,
            2 => E::T(0, 0),
            _ => {
                let mut c = g.below(5) as usize;
                let mut o = g.below(9) as isize - 4;
                if g.one_in(12) {
                    // far from the small ones, by a power of two
                    if g.bool() {
                        c += 1 << g.usize_in(3, 33);
                    } else {
                        o += (1 << g.usize_in(3, 33)) * if g.bool() { 1 } else { -1 };
                    }
                }
                E::T(c, o)
            }
        };
    }
    match g.below(12) {
        0 | 1 | 2 => {
            let a = tree_(g, depth - 1, claims, tp, t);
            add(a, tree_(g, depth - 1, claims, tp, t))
        }
        3 => {
            let a = tree_(g, depth - 1, claims, tp, t);
            sub(a, tree_(g, depth - 1, claims, tp, t))
        }
        4 | 5 | 6 => {
            let a = tree_(g, depth - 1, claims, tp, t);
            mul(a, tree_(g, depth - 1, claims, tp, t))
        }
        7 => neg(tree_(g, depth - 1, claims, tp, t)),
        8 => inv(tree_(g, depth - 1, claims, tp, t)),
        9 => {
            let a = tree_(g, depth - 1, claims, tp, t);
            div(a, tree_(g, depth - 1, claims, tp, t))
        }
        10 => {
            let e = g.usize_in(0, 5);
            pow(tree_(g, depth - 1, claims, tp, t), e)
        }
        _ => {
            if !claims.is_empty() && g.bool() {
                let i = g.below(claims.len() as u64) as usize;
                let b = poly_degree(&claims[i]) + g.usize_in(0, 2);
                E::Q(i, b, Box::new(tree_(g, depth - 1, claims, tp, t && tp)))
            } else {
                let l = 1_usize << g.usize_in(0, 2);
                let v = (0..l).map(|_| felt(g)).collect();
                E::P(v, Box::new(tree_(g, depth - 1, claims, tp, t && tp)))
            }
        }
    }
}

/// Cell values derived from a seed
fn cell(seed: u64) -> impl Fn(usize, isize) -> Fp {
    move |c: usize, o: isize| {
        let mut r = Rng::new(seed ^ (c as u64).wrapping_mul(0xd134_2543_de82_ef95).rotate_left(32) ^ (o as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15));
        rand_felt(&mut r)
    }
}

fn claims(g: &mut Gen) -> Vec<Vec<Fp>> {
    if g.bool() {
        return vec![];
    }
    (0..g.usize_in(1, 3))
        .map(|_| {
            let l = 1_usize << g.usize_in(0, 2);
            (0..l).map(|_| felt(g)).collect()
        })
        .collect()
}

fn evaluation(g: &mut Gen) -> CaseResult {
    let cl = claims(g);
    let d = g.usize_in(1, 6);
    let e = tree(g, d, &cl, true);
    let seed = g.u64();
    let x = felt(g);
    g.describe(|| format!("{:?} at {:?}", e, x));
    if e.size() > 3 {
        g.nontrivial();
    }
    g.label_if(!cl.is_empty(), "claim polynomials");
    let t = cell(seed);
    let want = e.eval(x, &t, &cl);
    let polys: Vec<_> = cl.iter().map(|p| dense(p)).collect();
    let re = e.re();
    let sub = if cl.is_empty() { re.clone() } else { re.substitute_claim(&polys) };
    let ft = |c: usize, o: isize| fe(t(c, o));
    match want {
        Some(v) => {
            let got = sub.evaluate(&fe(x), &ft);
            ensure_eq!(fp(&got), v, "value of {:?} at {:?}", e, x);
        }
        None => {
            g.label("division by zero");
            ensure!(no_panic(|| sub.evaluate(&fe(x), &ft)).is_err(), "{:?} has a value at {:?} despite a division by zero", e, x);
        }
    }
    // referenced cells
    let mut s = BTreeSet::new();
    e.args(&mut s);
    ensure!(sub.trace_arguments() == s, "cells of {:?}: code gives {:?}", e, sub.trace_arguments());
    // no claim polynomial is left
    fn left(r: &RE) -> bool {
        match r {
            RE::ClaimPolynomial(..) => true,
            RE::X | RE::Constant(_) | RE::Trace(..) => false,
            RE::Polynomial(_, a) | RE::Neg(a) | RE::Inv(a) | RE::Exp(a, _) => left(a),
            RE::Add(a, b) | RE::Mul(a, b) => left(a) || left(b),
        }
    }
    ensure!(!left(&sub), "claim polynomial left after substitution in {:?}", e);
    Ok(())
}

/// A claim polynomial must keep the degree the constraint declares for it: the
/// degrees of the proof are computed with that bound.
fn claim_bound(g: &mut Gen) -> CaseResult {
    let l = 1_usize << g.usize_in(0, 4);
    let mut v: Vec<Fp> = (0..l).map(|_| felt(g)).collect();
    if g.bool() {
        let k = g.usize_in(1, l);
        for c in v.iter_mut().skip(k) {
            *c = Fp::zero();
        }
    }
    let deg = poly_degree(&v);
    let bound = match g.below(4) {
        0 => g.usize_in(0, 20),
        1 => deg,
        2 => deg + 1,
        _ => deg.saturating_sub(g.usize_in(1, 3)),
    };
    let i = g.below(3) as usize;
    let mut polys: Vec<_> = (0..3).map(|_| dense(&[Fp::one()])).collect();
    polys[i] = dense(&v);
    let d = g.usize_in(0, 3);
    let q = E::Q(i, bound, Box::new(if g.bool() { E::X } else { pow(E::X, g.usize_in(1, 4)) }));
    let e = match g.below(4) {
        0 => q,
        1 => mul(tree(g, d, &[], true), q),
        2 => inv(sub(q, E::T(0, 0))),
        _ => add(pow(q, 2), tree(g, d, &[], true)),
    };
    g.describe(|| format!("{:?} with a polynomial of degree {}", e, deg));
    if deg > 0 {
        g.nontrivial();
    }
    g.label(if deg <= bound { "within the bound" } else { "beyond the bound" });
    let ok = no_panic(|| e.re().substitute_claim(&polys)).is_ok();
    ensure_eq!(ok, deg <= bound, "substituting a claim polynomial of degree {} where {} is declared: {:?}", deg, bound, e);
    Ok(())
}

/// Operators and helpers build the formula they name.
fn builders(g: &mut Gen) -> CaseResult {
    let a = tree(g, 3, &[], true);
    let b = tree(g, 3, &[], true);
    let x = felt(g);
    let t = cell(g.u64());
    let ft = |c: usize, o: isize| fe(t(c, o));
    let n = g.below(7) as usize;
    let i = g.u64() as i32;
    let c = felt(g);
    g.describe(|| format!("{:?} and {:?}", a, b));
    let (ra, rb) = (a.re(), b.re());
    let ci = if i < 0 { Fp::from_u64(i.unsigned_abs() as u64).neg() } else { Fp::from_u64(i as u64) };
    let cases: Vec<(&str, RE, E)> = vec![
        ("+", ra.clone() + rb.clone(), add(a.clone(), b.clone())),
        ("-", ra.clone() - rb.clone(), sub(a.clone(), b.clone())),
        ("*", ra.clone() * rb.clone(), mul(a.clone(), b.clone())),
        ("/", ra.clone() / rb.clone(), div(a.clone(), b.clone())),
        ("neg", ra.neg(), neg(a.clone())),
        ("inv", ra.inv(), inv(a.clone())),
        ("pow", ra.pow(n), pow(a.clone(), n)),
        ("+ integer", ra.clone() + i, add(a.clone(), E::C(ci))),
        ("- integer", ra.clone() - i, sub(a.clone(), E::C(ci))),
        ("* element", ra.clone() * fe(c), mul(a.clone(), E::C(c))),
        ("/ element", ra.clone() / &fe(c), div(a.clone(), E::C(c))),
        ("sum", vec![ra.clone(), rb.clone(), ra.clone()].into_iter().sum(), add(add(a.clone(), b.clone()), a.clone())),
        ("empty sum", Vec::<RE>::new().into_iter().sum(), E::C(Fp::zero())),
        ("from integer", RE::from(i), E::C(ci)),
        ("from element", RE::from(&fe(c)), E::C(c)),
    ];
    for (name, re, e) in cases {
        if let Some(v) = e.eval(x, &t, &[]) {
            g.nontrivial();
            ensure_eq!(fp(&re.evaluate(&fe(x), &ft)), v, "{} of {:?} and {:?}", name, a, b);
        }
    }
    Ok(())
}

/// Own bottom-up replacement
fn replace(e: &E, f: &dyn Fn(&E) -> Option<E>) -> E {
    let r = match e {
        E::X | E::C(_) | E::T(..) => e.clone(),
        E::P(p, a) => E::P(p.clone(), Box::new(replace(a, f))),
        E::Q(i, b, a) => E::Q(*i, *b, Box::new(replace(a, f))),
        E::Add(a, b) => add(replace(a, f), replace(b, f)),
        E::Neg(a) => neg(replace(a, f)),
        E::Mul(a, b) => mul(replace(a, f), replace(b, f)),
        E::Inv(a) => inv(replace(a, f)),
        E::Exp(a, n) => pow(replace(a, f), *n),
    };
    f(&r).unwrap_or(r)
}

fn mapping(g: &mut Gen) -> CaseResult {
    let cl = claims(g);
    let e = tree(g, 5, &cl, true);
    let k = g.below(6);
    g.describe(|| format!("map {} of {:?}", k, e));
    if e.size() > 3 {
        g.nontrivial();
    }
    let re = e.re();
    let (got, want) = match k {
        0 => (
            re.map(&|n| match n {
                RE::X => RE::X.pow(3),
                o => o,
            }),
            replace(&e, &|n| if *n == E::X { Some(pow(E::X, 3)) } else { None }),
        ),
        1 => (
            re.map(&|n| match n {
                RE::Trace(c, o) => RE::Trace(2 * c + 1, o - 3),
                o => o,
            }),
            replace(&e, &|n| match n {
                E::T(c, o) => Some(E::T(2 * c + 1, o - 3)),
                _ => None,
            }),
        ),
        2 => (
            re.map(&|n| match n {
                RE::Neg(a) => *a + 1,
                o => o,
            }),
            replace(&e, &|n| match n {
                E::Neg(a) => Some(add((**a).clone(), E::C(Fp::one()))),
                _ => None,
            }),
        ),
        3 => (
            re.map(&|n| match n {
                RE::Add(a, b) => *a * *b,
                o => o,
            }),
            replace(&e, &|n| match n {
                E::Add(a, b) => Some(mul((**a).clone(), (**b).clone())),
                _ => None,
            }),
        ),
        4 => (
            re.map(&|n| match n {
                RE::Constant(_) => RE::Trace(9, 0),
                RE::Exp(a, _) => *a,
                o => o,
            }),
            replace(&e, &|n| match n {
                E::C(_) => Some(E::T(9, 0)),
                E::Exp(a, _) => Some((**a).clone()),
                _ => None,
            }),
        ),
        _ => (re.map(&|n| n), e.clone()),
    };
    ensure!(E::from_re(&got) == want, "map {} of {:?} gives {:?}, expected {:?}", k, e, E::from_re(&got), want);
    Ok(())
}

fn hash(r: &RE) -> u64 {
    let mut h = DefaultHasher::new();
    r.hash(&mut h);
    h.finish()
}

/// Rewrites that keep the function, and edits that usually do not.
fn rewrite(g: &mut Gen, e: &E) -> E {
    match e {
        E::Add(a, b) => {
            let (a, b) = (rewrite(g, a), rewrite(g, b));
            if g.bool() {
                add(b, a)
            } else {
                add(a, b)
            }
        }
        E::Mul(a, b) => {
            let (a, b) = (rewrite(g, a), rewrite(g, b));
            match (&a, &b) {
                (E::Add(p, q), b) if g.one_in(3) => add(mul((**p).clone(), b.clone()), mul((**q).clone(), b.clone())),
                _ if g.bool() => mul(b, a),
                _ => mul(a, b),
            }
        }
        E::Neg(a) => {
            let a = rewrite(g, a);
            if g.bool() {
                mul(a, E::C(Fp::one().neg()))
            } else {
                neg(a)
            }
        }
        E::Inv(a) => inv(rewrite(g, a)),
        E::Exp(a, n) => {
            let a = rewrite(g, a);
            match n {
                0 => E::C(Fp::one()),
                2 if g.bool() => mul(a.clone(), a),
                n if g.one_in(3) && *n > 1 => mul(pow(a.clone(), n - 1), a),
                _ => pow(a, *n),
            }
        }
        E::P(p, a) => {
            let a = rewrite(g, a);
            if g.bool() {
                let mut r = E::C(p[p.len() - 1]);
                for c in p[..p.len() - 1].iter().rev() {
                    r = add(mul(r, a.clone()), E::C(*c));
                }
                r
            } else {
                E::P(p.clone(), Box::new(a))
            }
        }
        o => {
            let o = o.clone();
            match g.below(10) {
                0 => add(o, E::C(Fp::zero())),
                1 => mul(E::C(Fp::one()), o),
                2 => neg(neg(o)),
                3 => pow(o, 1),
                _ => o,
            }
        }
    }
}

fn edit(g: &mut Gen, e: &E, at: &mut i64) -> E {
    *at -= 1;
    if *at == -1 {
        return match e {
            E::X => add(E::X, E::C(Fp::one())),
            E::C(c) => E::C(*c + Fp::one()),
            E::T(c, o) => match g.below(5) {
                0 => E::T(c + 1, *o),
                1 => E::T(*c, o + 1),
                2 => E::T(c + (1 << g.usize_in(1, 33)), *o),
                3 => E::T(*c, o + (1 << g.usize_in(1, 33))),
                _ => E::T(*c, -o),
            },
            E::P(p, a) => {
                let mut p = p.clone();
                let i = g.below(p.len() as u64) as usize;
                p[i] = p[i] + Fp::one();
                E::P(p, a.clone())
            }
            E::Q(i, b, a) => match g.below(3) {
                0 => E::Q(i + 1, *b, a.clone()),
                1 => E::Q(*i, *b, Box::new(mul((**a).clone(), E::X))),
                _ => E::Q(*i, *b, Box::new(add((**a).clone(), E::C(Fp::one())))),
            },
            E::Add(a, b) => mul((**a).clone(), (**b).clone()),
            E::Mul(a, b) => add((**a).clone(), (**b).clone()),
            E::Neg(a) => (**a).clone(),
            E::Inv(a) => (**a).clone(),
            E::Exp(a, n) => pow((**a).clone(), n + 1),
        };
    }
    match e {
        E::X | E::C(_) | E::T(..) => e.clone(),
        E::P(p, a) => E::P(p.clone(), Box::new(edit(g, a, at))),
        E::Q(i, b, a) => E::Q(*i, *b, Box::new(edit(g, a, at))),
        E::Add(a, b) => {
            let a = edit(g, a, at);
            add(a, edit(g, b, at))
        }
        E::Neg(a) => neg(edit(g, a, at)),
        E::Mul(a, b) => {
            let a = edit(g, a, at);
            mul(a, edit(g, b, at))
        }
        E::Inv(a) => inv(edit(g, a, at)),
        E::Exp(a, n) => pow(edit(g, a, at), *n),
    }
}

#[cfg(not(feature = "nostd"))]
fn equality(g: &mut Gen) -> CaseResult {
    let a = tree(g, 4, &[], false);
    let (kind, b) = match g.below(4) {
        0 => ("rewritten", rewrite(g, &a)),
        1 => ("same", a.clone()),
        2 => ("unrelated", tree(g, 4, &[], false)),
        _ => {
            let mut at = g.below(a.size() as u64) as i64;
            ("edited", edit(g, &a, &mut at))
        }
    };
    g.label(kind);
    g.describe(|| format!("{}: {:?} and {:?}", kind, a, b));
    let (ra, rb) = (a.re(), b.re());
    // own verdict: equal at random points
    let mut same = true;
    let mut defined = true;
    for k in 0..3 {
        let mut r = Rng::new(g.u64() ^ k);
        let x = rand_felt(&mut r);
        let t = cell(r.next());
        match (a.eval(x, &t, &[]), b.eval(x, &t, &[])) {
            (Some(u), Some(v)) => same &= u == v,
            _ => defined = false,
        }
    }
    if defined {
        g.nontrivial();
        ensure_eq!(ra.equals(&rb), same, "extrinsic equality of {:?} and {:?}", a, b);
        if ra == rb {
            ensure!(same, "{:?} == {:?} but they differ as functions", a, b);
        }
    }
    if a == b {
        ensure!(ra == rb, "{:?} is not equal to itself", a);
    }
    let hashes = no_panic(|| (hash(&ra), hash(&rb), ra.cmp(&rb)));
    match hashes {
        Ok((ha, hb, ord)) => {
            if ra == rb {
                ensure_eq!(ha, hb, "hash of equal expressions {:?} and {:?}", a, b);
                ensure!(ord == std::cmp::Ordering::Equal, "order of equal expressions");
            }
        }
        // a polynomial of an undefined argument has no hash
        Err(m) => {
            ensure!(!defined, "hashing {:?} panics: {}", a, m);
        }
    }
    Ok(())
}

/// Hashable: nothing but X below a polynomial
fn hashable(e: &E, below: bool) -> bool {
    match e {
        E::X | E::C(_) => true,
        E::T(..) => !below,
        E::P(_, a) => hashable(a, true),
        E::Q(_, _, a) => !below && hashable(a, below),
        E::Neg(a) | E::Inv(a) | E::Exp(a, _) => hashable(a, below),
        E::Add(a, b) | E::Mul(a, b) => hashable(a, below) && hashable(b, below),
    }
}

/// Expressions that differ are kept apart by the order, which decides what is
/// shared in sorted maps
#[cfg(not(feature = "nostd"))]
fn order(g: &mut Gen) -> CaseResult {
    let shape = vec![vec![Fp::one(); 2]; 3];
    let d = g.usize_in(1, 4);
    let mut a = tree(g, d, &shape, false);
    if g.bool() {
        let i = g.below(3) as usize;
        a = E::Q(i, g.usize_in(1, 3), Box::new(a));
    }
    let (kind, b) = match g.below(5) {
        0 => ("rewritten", rewrite(g, &a)),
        1 => ("same", a.clone()),
        _ => {
            let mut at = g.below(a.size() as u64) as i64;
            ("edited", edit(g, &a, &mut at))
        }
    };
    g.label(kind);
    g.describe(|| format!("{}: {:?} and {:?}", kind, a, b));
    if !hashable(&a, false) || !hashable(&b, false) {
        return Ok(());
    }
    let mut differ = false;
    let mut defined = true;
    for k in 0..3 {
        let mut r = Rng::new(g.u64() ^ k);
        let x = rand_felt(&mut r);
        let cl: Vec<Vec<Fp>> = (0..5).map(|_| (0..4).map(|_| rand_felt(&mut r)).collect()).collect();
        let t = cell(r.next());
        match (a.eval(x, &t, &cl), b.eval(x, &t, &cl)) {
            (Some(u), Some(v)) => differ |= u != v,
            _ => defined = false,
        }
    }
    if !defined {
        return Ok(());
    }
    let (ra, rb) = (a.re(), b.re());
    let (o, p) = match no_panic(|| (ra.cmp(&rb), rb.cmp(&ra))) {
        Ok(v) => v,
        Err(m) => return vpbt::fail(format!("comparing {:?} and {:?} panics: {}", a, b, m)),
    };
    g.nontrivial();
    ensure!(o == p.reverse(), "{:?} and {:?} compare {:?}, the other way around {:?}", a, b, o, p);
    ensure_eq!(ra.partial_cmp(&rb), Some(o), "the partial order and the order of {:?} and {:?}", a, b);
    if a == b {
        ensure!(o == std::cmp::Ordering::Equal, "{:?} does not compare equal to itself", a);
    }
    if differ {
        g.label("different functions");
        ensure!(o != std::cmp::Ordering::Equal, "{:?} and {:?} are different but compare equal", a, b);
        ensure!(ra != rb, "{:?} == {:?} but they differ as functions", a, b);
        let m: BTreeSet<RE> = vec![ra, rb].into_iter().collect();
        ensure_eq!(m.len(), 2, "a set of {:?} and {:?}", a, b);
    }
    Ok(())
}

// Dense polynomial arithmetic for the degree oracle
fn padd(a: &[Fp], b: &[Fp]) -> Vec<Fp> {
    let n = a.len().max(b.len());
    let at = |v: &[Fp], i: usize| v.get(i).copied().unwrap_or_else(Fp::zero);
    (0..n).map(|i| at(a, i) + at(b, i)).collect()
}

fn pmul(a: &[Fp], b: &[Fp]) -> Vec<Fp> {
    let mut r = vec![Fp::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        if x.is_zero() {
            continue;
        }
        for (j, y) in b.iter().enumerate() {
            r[i + j] = r[i + j] + *x * *y;
        }
    }
    r
}

fn ppow(a: &[Fp], n: usize) -> Vec<Fp> {
    let mut r = vec![Fp::one()];
    for _ in 0..n {
        r = pmul(&r, a);
    }
    r
}

type Frac = (Vec<Fp>, Vec<Fp>);

/// Formal numerator and denominator with X and the trace cells replaced by
/// polynomials; None: too big
fn formal(e: &E, x: &[Fp], t: &dyn Fn(usize, isize) -> Vec<Fp>, cl: &[Vec<Fp>]) -> Option<Frac> {
    let one = vec![Fp::one()];
    let poly = |p: &[Fp], d: usize, (n, m): Frac| -> Frac {
        let mut r = vec![Fp::zero()];
        for (i, c) in p.iter().enumerate().take(d + 1) {
            r = padd(&r, &pmul(&[*c], &pmul(&ppow(&n, i), &ppow(&m, d - i))));
        }
        (r, ppow(&m, d))
    };
    let r = match e {
        E::X => (x.to_vec(), one),
        E::C(c) => (vec![*c], one),
        E::T(c, o) => (t(*c, *o), one),
        E::P(p, a) => poly(p, poly_degree(p), formal(a, x, t, cl)?),
        E::Q(i, b, a) => poly(&cl[*i], *b, formal(a, x, t, cl)?),
        E::Add(a, b) => {
            let (an, ad) = formal(a, x, t, cl)?;
            let (bn, bd) = formal(b, x, t, cl)?;
            (padd(&pmul(&an, &bd), &pmul(&bn, &ad)), pmul(&ad, &bd))
        }
        E::Neg(a) => {
            let (n, d) = formal(a, x, t, cl)?;
            (n.into_iter().map(|c| c.neg()).collect(), d)
        }
        E::Mul(a, b) => {
            let (an, ad) = formal(a, x, t, cl)?;
            let (bn, bd) = formal(b, x, t, cl)?;
            (pmul(&an, &bn), pmul(&ad, &bd))
        }
        E::Inv(a) => {
            let (n, d) = formal(a, x, t, cl)?;
            (d, n)
        }
        E::Exp(a, k) => {
            let (n, d) = formal(a, x, t, cl)?;
            (ppow(&n, *k), ppow(&d, *k))
        }
    };
    let trim = |v: Vec<Fp>| v[..=poly_degree(&v)].to_vec();
    let r = (trim(r.0), trim(r.1));
    if r.0.len().max(r.1.len()) > 400 {
        return None;
    }
    Some(r)
}

fn degrees(g: &mut Gen) -> CaseResult {
    let cl = claims(g);
    let e = tree(g, 4, &cl, true);
    let td = g.usize_in(0, 5);
    g.describe(|| format!("{:?} with trace degree {}", e, td));
    let re = e.re();
    let seed = g.u64();
    let random_poly = |d: usize| {
        move |c: usize, o: isize| -> Vec<Fp> {
            let mut r = Rng::new(seed ^ ((c as u64) << 32) ^ (o as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15));
            (0..=d).map(|_| rand_felt(&mut r)).collect()
        }
    };
    let mut rng = Rng::new(seed.wrapping_add(1));
    let xc = vec![rand_felt(&mut rng)];
    let cases: [(&str, (usize, usize), (usize, usize), Option<Frac>); 2] = [
        (
            "degree",
            re.degree(td),
            e.degree(1, td),
            formal(&e, &[Fp::zero(), Fp::one()], &random_poly(td), &cl),
        ),
        ("trace degree", re.trace_degree(), e.degree(0, 1), formal(&e, &xc, &random_poly(1), &cl)),
    ];
    for (name, got, bound, truth) in &cases {
        if let Some((n, d)) = truth {
            let t = (n.len() - 1, d.len() - 1);
            g.nontrivial();
            g.label_if(t == *bound, "bound is tight");
            ensure!(
                got.0 >= t.0 && got.1 >= t.1,
                "{} of {:?}: code reports {:?}, the numerator and denominator have {:?}",
                name,
                e,
                got,
                t
            );
        }
        ensure!(
            got.0 <= bound.0 && got.1 <= bound.1,
            "{} of {:?}: code reports {:?}, more than any cells and constants can give: {:?}",
            name,
            e,
            got,
            bound
        );
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C19",
        rule: "a case counts as non-trivial when the tree has more than three nodes, or (equality, degrees) both \
               sides are defined at random points",
        assumptions: &[
            "equality as functions is decided by the harness at three random points (error below 2^-200)",
            "expressions with a trace cell below a polynomial are not hashed: the code declares that unsupported",
        ],
        facets: vec![
            Facet::new("evaluation", 240000, 3600000, evaluation),
            Facet::new("builders", 32000, 480000, builders),
            Facet::new("mapping", 48000, 720000, mapping),
            #[cfg(not(feature = "nostd"))]
            Facet::new("equality", 96000, 1440000, equality),
            #[cfg(not(feature = "nostd"))]
            Facet::new("order", 64000, 960000, order),
            Facet::new("degrees", 48000, 720000, degrees),
            Facet::new("claim-bound", 40000, 600000, claim_bound),
        ],
    }
}
