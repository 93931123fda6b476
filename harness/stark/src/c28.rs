//! C28: parameters and bounds.
use crate::{expr::*, proto, proto::Dev, sys::*};
use vpbt::{ensure, ensure_eq, no_panic, CaseResult, Facet, Fp, Gen, Property};
use zkp_stark::{prove, verify, Constraints};

fn bounds(g: &mut Gen) -> CaseResult {
    let mut s = system(g, &Limits {
        max_log_rows: 6,
        max_cols: 8,
        max_degree: 7,
        ..Limits::default()
    });
    if g.one_in(3) {
        s.queries = g.usize_in(1, 100);
    }
    s.describe(g);
    labels(g, &s);
    g.nontrivial();
    let c = s.constraints();
    // the largest proof over several transcripts
    let mut size = 0;
    for k in 0..3 {
        let mut o = s.clone();
        o.seed.push(k);
        size = size.max(proto::prove(&o, &o.trace, &Dev::Honest).len());
    }
    match no_panic(|| c.max_proof_size()) {
        Ok(b) => {
            g.label_if(b <= 2 * size, "bound within a factor of two");
            ensure!(b >= size, "the size bound is {}, a proof has {} bytes: {:?}", b, size, s)
        }
        Err(m) => return vpbt::fail(format!("the size bound panics with {}: {:?}", m, s)),
    }
    ensure_eq!(c.degree(), s.degree(), "degree of {:?}", s);
    let lg = s.blowup.trailing_zeros() as usize;
    ensure_eq!(c.security_bits(), lg * (s.queries / 2) + s.pow, "security level of {:?}", s);
    ensure_eq!(c.trace_nrows(), s.rows, "rows");
    ensure_eq!(c.trace_ncolumns(), s.cols, "columns");
    ensure_eq!(c.len(), s.cons.len(), "constraints");
    ensure!(!c.is_empty(), "empty");
    ensure!(c.channel_seed() == &s.seed[..], "seed");
    match no_panic(|| c.trace_arguments()) {
        Ok(a) => ensure!(a == s.args(), "cells {:?}, expected {:?}: {:?}", a, s.args(), s),
        Err(m) => return vpbt::fail(format!("listing the cells panics with {}: {:?}", m, s)),
    }
    Ok(())
}

/// Parameters in any range, no proof made
fn formula(g: &mut Gen) -> CaseResult {
    let rows = 1_usize << g.usize_in(0, 30);
    let c = Constraints::from_expressions((rows, g.usize_in(1, 20)), vec![], vec![E::T(0, 0).re()]);
    let mut c = match c {
        Ok(c) => c,
        Err(e) => return vpbt::fail(format!("{} rows are refused: {:?}", rows, e)),
    };
    let lg = g.usize_in(0, 12);
    c.blowup = 1 << lg;
    c.num_queries = g.usize_in(1, 500);
    c.pow_bits = g.usize_in(0, 40);
    g.nontrivial();
    g.describe(|| format!("{} rows, blowup {}, {} queries, {} bits", rows, c.blowup, c.num_queries, c.pow_bits));
    ensure_eq!(c.security_bits(), lg * (c.num_queries / 2) + c.pow_bits, "security level");
    ensure!(no_panic(|| c.max_proof_size()).is_ok(), "the size bound panics for {} rows", rows);
    Ok(())
}

/// Default parameters: complete, and admissible for any length
fn defaults(g: &mut Gen) -> CaseResult {
    let lg = g.usize_in(1, 40);
    let rows = 1_usize << lg;
    let detailed = g.bool();
    g.describe(|| format!("{} rows", rows));
    g.nontrivial();
    let make = |rows: usize, e: E| {
        if detailed {
            Constraints::from_expressions_detailed((rows, 1), vec![], vec![e.re()], None, None, None, None)
        } else {
            Constraints::from_expressions((rows, 1), vec![], vec![e.re()])
        }
    };
    let c = make(rows, E::T(0, 0)).map_err(|e| vpbt::fail(format!("{} rows are refused: {:?}", rows, e)).unwrap_err())?;
    ensure!(!c.fri_layout.is_empty(), "no folding layer for {} rows", rows);
    ensure!(c.fri_layout.iter().all(|k| *k >= 1), "empty folding step for {} rows: {:?}", rows, c.fri_layout);
    ensure!(c.fri_layout.iter().sum::<usize>() <= lg, "folding layout {:?} exceeds {} rows", c.fri_layout, rows);
    ensure!(c.blowup.is_power_of_two() && c.blowup >= 2 && c.num_queries >= 1, "default blowup or queries");
    ensure!(
        lg - c.fri_layout.iter().sum::<usize>() <= 8,
        "the default layout {:?} leaves a final polynomial of more than 256 coefficients for {} rows",
        c.fri_layout,
        rows
    );
    let least = if detailed { 44 } else { 88 };
    let lg_blowup = c.blowup.trailing_zeros() as usize;
    ensure!(
        lg_blowup * (c.num_queries / 2) + c.pow_bits >= least,
        "default parameters (blowup {}, {} queries, {} bits) fall short of {} bits",
        c.blowup,
        c.num_queries,
        c.pow_bits,
        least
    );
    // one left unset, the others chosen
    let (b, p, q) = (1 << g.usize_in(1, 6), g.usize_in(0, 30), g.usize_in(1, 90));
    let k = g.below(4);
    let o = Constraints::from_expressions_detailed(
        (rows, 1),
        vec![],
        vec![E::T(0, 0).re()],
        if k == 0 { None } else { Some(b) },
        if k == 1 { None } else { Some(p) },
        if k == 2 { None } else { Some(q) },
        if k == 3 { None } else { Some(vec![1]) },
    )
    .unwrap();
    ensure!(
        (if k == 0 { o.blowup >= 16 } else { o.blowup == b })
            && (if k == 1 { o.pow_bits >= 20 } else { o.pow_bits == p })
            && (if k == 2 { o.num_queries >= 13 } else { o.num_queries == q })
            && (if k == 3 { lg - o.fri_layout.iter().sum::<usize>() <= 8 } else { o.fri_layout == vec![1] }),
        "of blowup {}, {} bits, {} queries, layout [1] with number {} left unset came blowup {}, {} bits, {} queries, layout {:?}",
        b,
        p,
        q,
        k,
        o.blowup,
        o.pow_bits,
        o.num_queries,
        o.fri_layout
    );
    if lg <= 10 && g.one_in(4) {
        let v = felt(g);
        let mut t = zkp_stark::TraceTable::new(rows, 1);
        for r in 0..rows {
            t[(r, 0)] = fe(v + Fp::from_u64(r as u64) * v);
        }
        let w = root(rows).pow(rows as u64 - 1);
        // a_{i+1} - a_i = v
        let num = sub(sub(E::T(0, 1), E::T(0, 0)), E::C(v));
        let e = div(mul(num, sub(E::X, E::C(w))), sub(pow(E::X, rows), E::C(Fp::one())));
        let mut c = make(rows, e).unwrap();
        c.pow_bits = c.pow_bits.min(8);
        g.label("proved");
        match no_panic(|| prove(&c, &t).map(|p| verify(&c, &p))) {
            Ok(Ok(Ok(()))) => {}
            o => return vpbt::fail(format!("default parameters for {} rows fail: {:?}", rows, o)),
        }
    }
    // explicit parameters are kept
    let (b, p, q, l) = (1 << g.usize_in(1, 6), g.usize_in(0, 30), g.usize_in(1, 90), vec![g.usize_in(1, 3)]);
    let c = Constraints::from_expressions_detailed(
        (rows, 3),
        vec![9],
        vec![E::T(0, 0).re()],
        Some(b),
        Some(p),
        Some(q),
        Some(l.clone()),
    )
    .unwrap();
    ensure!(
        c.blowup == b && c.pow_bits == p && c.num_queries == q && c.fri_layout == l && c.trace_ncolumns() == 3,
        "explicit parameters are not kept"
    );
    Ok(())
}

/// Lengths that are not powers of two are refused
fn lengths(g: &mut Gen) -> CaseResult {
    let n = match g.below(4) {
        0 => g.usize_in(1, 200),
        1 => (1_usize << g.usize_in(1, 50)) + 1,
        2 => (1_usize << g.usize_in(2, 50)) - 1,
        _ => *g.pick(&[5_usize, 7, 35, 98714381, 10, 14, 20, 28, 40, 70, 140]),
    };
    g.describe(|| format!("{} rows", n));
    if !n.is_power_of_two() {
        g.nontrivial();
    }
    let r = Constraints::from_expressions((n, 1), vec![], vec![E::T(0, 0).re()]);
    ensure_eq!(r.is_ok(), n.is_power_of_two(), "acceptance of {} rows", n);
    let r = Constraints::from_expressions_detailed((n, 1), vec![], vec![E::T(0, 0).re()], None, None, None, None);
    ensure_eq!(r.is_ok(), n.is_power_of_two(), "acceptance of {} rows (detailed)", n);
    Ok(())
}

/// The combination: each constraint raised to the target degree
fn combination(g: &mut Gen) -> CaseResult {
    let s = system(g, &Limits {
        max_log_rows: 6,
        ..Limits::default()
    });
    s.describe(g);
    g.nontrivial();
    let c = s.constraints();
    let coef: Vec<Fp> = (0..2 * s.cons.len()).map(|_| felt(g)).collect();
    let fc: Vec<_> = coef.iter().map(|x| fe(*x)).collect();
    let e = c.combine(&fc);
    let co = proto::Combined {
        coef,
        adj: s.adjustments().into_iter().map(|a| a.unwrap()).collect(),
    };
    let mut rng = vpbt::gen::Rng::new(g.u64());
    let x = rand_felt(&mut rng);
    let seed = rng.next();
    let t = |c: usize, o: isize| {
        let mut r = vpbt::gen::Rng::new(seed ^ ((c as u64) << 32) ^ o as u64);
        rand_felt(&mut r)
    };
    let want = proto::combined(&s, &co, x, &t);
    let e = if s.claims.is_empty() { e } else { e.substitute_claim(&c.claim_polynomials) };
    ensure_eq!(fp(&e.evaluate(&fe(x), &|c, o| fe(t(c, o)))), want, "combined constraint of {:?}", s);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C28",
        rule: "a case counts as non-trivial when a system with its parameters was generated (lengths: not a power of \
               two)",
        assumptions: &["actual proof sizes are those of the independent prover, which produces the same bytes (C25)"],
        facets: vec![
            Facet::new("bounds", 6000, 90000, bounds),
            Facet::new("formula", 12000, 180000, formula),
            Facet::new("defaults", 2400, 36000, defaults),
            Facet::new("lengths", 12000, 180000, lengths),
            Facet::new("combination", 8000, 120000, combination),
        ],
    }
}
