//! C25: proof bytes equal those of an independent prover.
use crate::{proto, sys::*};
use vpbt::{ensure, no_panic, CaseResult, Facet, Gen, Property};
use zkp_stark::prove;

fn diff(map: &proto::Map, a: &[u8], b: &[u8]) -> String {
    let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or_else(|| a.len().min(b.len()));
    let part = map.parts.iter().find(|p| p.1 <= at && at < p.2).map_or("beyond the end", |p| p.0);
    format!("lengths {} and {}, first difference at byte {} ({})", a.len(), b.len(), at, part)
}

fn compare(g: &mut Gen, s: &Sys) -> CaseResult {
    s.describe(g);
    labels(g, s);
    if s.cons.len() > 1 && s.degree() > 1 {
        g.nontrivial();
    }
    let (want, map) = proto::prove_map(s, &s.trace, &proto::Dev::Honest);
    let c = s.constraints();
    let t = s.table();
    match no_panic(|| prove(&c, &t)) {
        Ok(Ok(p)) => {
            ensure!(
                p.as_bytes() == &want[..],
                "proof differs from the reference: {}: {:?}",
                diff(&map, p.as_bytes(), &want),
                s
            );
        }
        Ok(Err(e)) => return vpbt::fail(format!("proving fails with {:?}: {:?}", e, s)),
        Err(m) => return vpbt::fail(format!("proving panics with {}: {:?}", m, s)),
    }
    Ok(())
}

fn reference(g: &mut Gen) -> CaseResult {
    let s = system(g, &Limits {
        max_log_rows: 5,
        ..Limits::default()
    });
    compare(g, &s)
}

fn reference_medium(g: &mut Gen) -> CaseResult {
    let s = system(g, &Limits {
        max_log_rows: 8,
        max_cols: 6,
        max_degree: 7,
        ..Limits::default()
    });
    compare(g, &s)
}

/// Hundreds of constraints, dozens of columns
fn reference_many(g: &mut Gen) -> CaseResult {
    let s = system(g, &Limits {
        max_log_rows: 4,
        many: true,
        widest: true,
        ..Limits::default()
    });
    compare(g, &s)
}

fn threads(g: &mut Gen) -> CaseResult {
    let mut s = system(g, &Limits {
        max_log_rows: 6,
        ..Limits::default()
    });
    s.pow = g.usize_in(0, 12);
    s.describe(g);
    labels(g, &s);
    if s.pow > 4 {
        g.nontrivial();
    }
    let c = s.constraints();
    let t = s.table();
    let mut first: Option<Vec<u8>> = None;
    for k in &[1_usize, 2, 3, 8] {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(*k).build().unwrap();
        for _ in 0..2 {
            let r = pool.install(|| no_panic(|| prove(&c, &t)));
            let b = match r {
                Ok(Ok(p)) => p.as_bytes().to_vec(),
                Ok(Err(e)) => return vpbt::fail(format!("proving fails with {:?} on {} threads: {:?}", e, k, s)),
                Err(m) => return vpbt::fail(format!("proving panics with {} on {} threads: {:?}", m, k, s)),
            };
            match &first {
                None => first = Some(b),
                Some(f) => ensure!(*f == b, "the proof on {} threads differs from that on one: {:?}", k, s),
            }
        }
    }
    Ok(())
}

/// Evaluation domain larger than one parallel chunk: one thread and many agree
fn threads_large(g: &mut Gen) -> CaseResult {
    let s = crate::c22::big_system(g, 14, 15);
    s.describe(g);
    g.nontrivial();
    let c = s.constraints();
    let t = s.table();
    let mut first: Option<Vec<u8>> = None;
    for k in &[1_usize, 8] {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(*k).build().unwrap();
        let b = match pool.install(|| no_panic(|| prove(&c, &t))) {
            Ok(Ok(p)) => p.as_bytes().to_vec(),
            Ok(Err(e)) => return vpbt::fail(format!("proving fails with {:?} on {} threads: {:?}", e, k, s)),
            Err(m) => return vpbt::fail(format!("proving panics with {} on {} threads: {:?}", m, k, s)),
        };
        match &first {
            None => first = Some(b),
            Some(f) => ensure!(*f == b, "the proof on {} threads differs from that on one: {:?}", k, s),
        }
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C25",
        rule: "a case counts as non-trivial when the system has several constraints and one of degree two or more \
               (threads: a proof of work of more than four bits)",
        assumptions: &[
            "the reference prover in the harness (own field, own Keccak transcript, own FFT and Merkle tree) follows \
             the documentation of the prover; the byte format was fixed from the tree the checks were written on",
        ],
        facets: vec![
            Facet::new("reference", 8000, 48000, reference),
            Facet::new("reference-medium", 1200, 7200, reference_medium),
            Facet::new("reference-many", 96, 2400, reference_many),
            Facet::new("threads", 500, 4800, threads).serial(),
            Facet::new("threads-large", 2, 8, threads_large).serial(),
        ],
    }
}
