//! C22: completeness.
use super::{expr::*, proto, sys::*};
use vpbt::{ensure, no_panic, CaseResult, Facet, Gen, Property};
use zkp_stark::{prove, verify, Constraints, Proof, Provable, TraceTable, Verifiable};

struct Claim {
    c: Constraints,
    t: TraceTable,
}

impl Verifiable for Claim {
    fn constraints(&self) -> Constraints {
        self.c.clone()
    }
}

impl Provable<()> for Claim {
    fn trace(&self, _: ()) -> TraceTable {
        self.t.clone()
    }
}

pub fn complete(g: &mut Gen, s: &Sys) -> Result<Vec<u8>, vpbt::Failure> {
    let c = s.constraints();
    let t = s.table();
    let r = if g.one_in(4) {
        let p = Claim { c: c.clone(), t };
        no_panic(|| p.prove(()))
    } else {
        no_panic(|| prove(&c, &t))
    };
    let proof = match r {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return Err(vpbt::fail(format!("proving fails with {:?}: {:?}", e, s)).unwrap_err()),
        Err(m) => return Err(vpbt::fail(format!("proving panics with {}: {:?}", m, s)).unwrap_err()),
    };
    let bytes = proof.as_bytes().to_vec();
    for again in 0..2 {
        let p = if again == 0 { proof.clone() } else { Proof::from_bytes(bytes.clone()) };
        match no_panic(|| verify(&s.constraints(), &p)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(vpbt::fail(format!("the proof is refused with {:?}: {:?}", e, s)).unwrap_err()),
            Err(m) => return Err(vpbt::fail(format!("verifying panics with {}: {:?}", m, s)).unwrap_err()),
        }
    }
    Ok(bytes)
}

fn run(g: &mut Gen, s: &Sys) -> CaseResult {
    s.describe(g);
    labels(g, s);
    if s.cons.len() > 1 && s.degree() > 1 {
        g.nontrivial();
    }
    ensure!(s.violations(&s.trace).is_empty(), "harness: trace does not satisfy the system");
    let bytes = complete(g, s)?;
    if let Err(e) = proto::verify(s, &bytes) {
        return vpbt::fail(format!("the reference verifier refuses the proof ({}): {:?}", e, s));
    }
    Ok(())
}

fn small(g: &mut Gen) -> CaseResult {
    let s = system(g, &Limits {
        max_log_rows: 5,
        ..Limits::default()
    });
    run(g, &s)
}

fn medium(g: &mut Gen) -> CaseResult {
    let s = system(g, &Limits {
        max_log_rows: 9,
        max_cols: 6,
        max_degree: 9,
        ..Limits::default()
    });
    run(g, &s)
}

/// Hundreds of constraints, dozens of columns
fn many(g: &mut Gen) -> CaseResult {
    let s = system(g, &Limits {
        max_log_rows: 4,
        many: true,
        widest: true,
        ..Limits::default()
    });
    run(g, &s)
}

/// Constraints between cells hundreds of rows apart
fn far(g: &mut Gen) -> CaseResult {
    let lg = g.usize_in(9, 10);
    let s = system(g, &Limits {
        log_rows: Some(lg),
        max_cols: 3,
        max_degree: 3,
        far: true,
        ..Limits::default()
    });
    run(g, &s)
}

/// Tables with more rows than one parallel chunk of the prover
fn large(g: &mut Gen) -> CaseResult {
    let s = big_system(g, 15, 17);
    s.describe(g);
    labels(g, &s);
    g.nontrivial();
    let _ = complete(g, &s)?;
    Ok(())
}

pub fn big_system(g: &mut Gen, lo: usize, hi: usize) -> Sys {
    let lg = g.usize_in(lo, hi);
    let n = 1_usize << lg;
    let w = root(n);
    // two recurrences with a periodic column and a global relation
    let mut rng = vpbt::gen::Rng::new(g.u64());
    let l = 1_usize << g.usize_in(0, 4);
    let period: Vec<vpbt::Fp> = (0..l).map(|_| rand_felt(&mut rng)).collect();
    let e = g.usize_in(1, 3);
    let mut trace = vec![vpbt::Fp::zero(); 2 * n];
    trace[0] = rand_felt(&mut rng);
    trace[1] = rand_felt(&mut rng);
    let values: Vec<vpbt::Fp> = (0..l).map(|i| horner(&period, root(l).pow(i as u64))).collect();
    for r in 1..n {
        let (a, b) = (trace[2 * r - 2], trace[2 * r - 1]);
        trace[2 * r] = a.pow(e as u64) + b * values[(r - 1) % l];
        trace[2 * r + 1] = a * b + vpbt::Fp::from_u64(r as u64 % 2);
    }
    // parity as a polynomial of X^(n/2): 0 on even, 1 on odd rows (of the target row)
    let half = vpbt::Fp::from_u64(2).inv();
    let parity = E::P(vec![half, half], Box::new(pow(E::X, n / 2)));
    let every = |num: E| div(mul(num, sub(E::X, E::C(w.pow(n as u64 - 1)))), sub(pow(E::X, n), E::C(vpbt::Fp::one())));
    let n1 = sub(
        E::T(0, 1),
        add(pow(E::T(0, 0), e), mul(E::T(1, 0), E::P(period, Box::new(pow(E::X, n / l))))),
    );
    let n2 = sub(E::T(1, 1), add(mul(E::T(0, 0), E::T(1, 0)), parity));
    let n3 = sub(E::T(0, 0), E::C(trace[2 * n - 2]));
    let rows: Vec<usize> = (0..n - 1).collect();
    let mut s = Sys {
        rows: n,
        cols: 2,
        seed: vec![1, 2, 3],
        cons: vec![
            Con { e: every(n1.clone()), num: n1, rows: rows.clone() },
            Con { e: every(n2.clone()), num: n2, rows },
            Con { e: div(n3.clone(), sub(E::X, E::C(w.pow(n as u64 - 1)))), num: n3, rows: vec![n - 1] },
        ],
        claims: vec![],
        blowup: 0,
        pow: 0,
        queries: 0,
        layout: vec![],
        trace,
    };
    params(g, &mut s);
    s.blowup = s.eval_degree().max(2);
    s
}

pub fn property() -> Property {
    Property {
        id: "C22",
        rule: "a case counts as non-trivial when the system has several constraints and one of degree two or more",
        assumptions: &[
            "admissible: two rows or more, a blowup (a power of two, 2 or more) at least the constraint degree rounded \
             up to a power of two, at least one query and one folding layer, layout summing to at most log2 of the rows",
            "constraints vanish with simple zeros and reach at most one table length",
        ],
        facets: vec![
            Facet::new("small", 14000, 84000, small),
            Facet::new("many", 96, 1200, many),
            Facet::new("far", 1200, 9600, far),
            Facet::new("medium", 2400, 14400, medium),
            Facet::new("large", 4, 12, large).serial(),
        ],
    }
}
