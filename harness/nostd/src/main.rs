//! C31: the checks of the parts, against the build without the standard
//! library. The sources of the other harnesses are included.
#![allow(dead_code, unused_imports)]
mod alg;
mod curve;
mod field;
mod merkle;
mod stark;

use stark::{c23::verdict, proto, proto::Dev, sys::*};
use vpbt::{CaseResult, Facet, Gen, Property};

/// Proofs made by the reference prover are accepted.
fn honest(g: &mut Gen) -> CaseResult {
    let max_log_rows = if g.one_in(20) { 10 } else { 6 };
    let s = system(g, &Limits {
        max_log_rows,
        ..Limits::default()
    });
    s.describe(g);
    labels(g, &s);
    if s.cons.len() > 1 && s.degree() > 1 {
        g.nontrivial();
    }
    let bytes = proto::prove(&s, &s.trace, &Dev::Honest);
    match verdict(&s, &bytes) {
        Ok(true) => Ok(()),
        o => vpbt::fail(format!("the honest proof is not accepted ({:?}): {:?}", o, s)),
    }
}

fn property() -> Property {
    let mut facets = vec![Facet::new("honest", 6_000, 60_000, honest)];
    for (p, share) in vec![
        (alg::c01::property(), 3),
        (alg::c02::property(), 3),
        (alg::c03::property(), 3),
        (field::c04::property(), 3),
        (field::c05::property(), 3),
        (field::c06::property(), 3),
        (field::c07::property(), 3),
        (field::c08::property(), 2),
        (curve::c09::property(), 2),
        (curve::c10::property(), 2),
        (curve::c11::property(), 2),
        (merkle::c12::property(), 3),
        (merkle::c14::property(), 3),
        (stark::c19::property(), 2),
        (stark::c23::property(), 2),
        (stark::c24::property(), 2),
    ] {
        for mut f in p.facets {
            f.name = Box::leak(format!("{}-{}", p.id, f.name).into_boxed_str());
            f.quick = (f.quick / share).max(1);
            f.thorough = (f.thorough / (4 * share)).max(1);
            facets.push(f);
        }
    }
    Property {
        id: "C31",
        rule: "by the rule of the property the facet is named after; honest: more than one constraint, and of degree above one",
        assumptions: &[
            "the libraries are built without their default features on the host: no standard library, threads or prover",
            "zkp-macros-lib needs the `alloc` feature of the `hex` crate at the locked version; the harness enables it",
        ],
        facets,
    }
}

fn main() {
    vpbt::run_main(vec![property()]);
}
