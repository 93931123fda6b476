//! C20: constraint checking.
use crate::{expr::*, sys::*};
use vpbt::{ensure, CaseResult, Facet, Gen, Property};
use zkp_stark::{check_constraints, Constraints, Provable, TraceTable, Verifiable};

struct Claim {
    c: Constraints,
    t: TraceTable,
}

impl Verifiable for Claim {
    fn constraints(&self) -> Constraints {
        self.c.clone()
    }
}

impl Provable<()> for Claim {
    fn trace(&self, _: ()) -> TraceTable {
        self.t.clone()
    }
}

fn check(g: &mut Gen) -> CaseResult {
    let s = system(g, &Limits {
        max_log_rows: 5,
        ..Limits::default()
    });
    check_system(g, s)
}

/// Hundreds of rows
fn tall(g: &mut Gen) -> CaseResult {
    let lg = g.usize_in(6, 11);
    let far = g.bool();
    let s = system(g, &Limits {
        log_rows: Some(lg),
        max_cols: 3,
        far,
        ..Limits::default()
    });
    check_system(g, s)
}

fn check_system(g: &mut Gen, mut s: Sys) -> CaseResult {
    if g.one_in(4) {
        let c = cell_free(g, s.rows);
        let at = g.below(s.cons.len() as u64 + 1) as usize;
        s.cons.insert(at, c);
        if g.one_in(4) {
            // nothing else
            s.cons = vec![s.cons[at].clone()];
        }
        g.label("constraint without cells");
    }
    if g.one_in(8) {
        // the inverse of an inverse is the one nested fraction that is supported
        let k = g.below(s.cons.len() as u64) as usize;
        let c = &mut s.cons[k];
        c.e = inv(inv(c.e.clone()));
        g.label("inverse of an inverse");
    }
    let t = match g.below(4) {
        0 => s.trace.clone(),
        _ => corrupt(g, &s),
    };
    let want = s.violations(&t);
    g.label_if(want.is_empty(), "satisfied");
    g.label_if(want.len() == 1, "one violation");
    s.describe(g);
    labels(g, &s);
    if !want.is_empty() {
        g.nontrivial();
    }
    let mut c = s.constraints();
    c.substitute();
    let table = s.table_of(&t);
    let got = check_constraints(&c, &table);
    match got {
        Ok(()) => ensure!(want.is_empty(), "check passes, but rows and constraints {:?} are violated: {:?}", want, s),
        Err(rc) => ensure!(want.contains(&rc), "check reports {:?}, violated are {:?}: {:?}", rc, want, s),
    }
    let p = Claim { c, t: table };
    ensure!(p.check(()) == got, "Provable::check differs");
    // on tall tables some violated and some other rows
    let mut rows: Vec<usize> = (0..s.rows).collect();
    if s.rows > 32 {
        rows = want.iter().take(2).chain(want.iter().rev().take(1)).map(|x| x.0).collect();
        rows.push(0);
        rows.push(s.rows - 1);
        rows.push(g.below(s.rows as u64) as usize);
    }
    for r in rows {
        for k in 0..s.cons.len() {
            let ok = p.check_specified((), r, k).is_ok();
            ensure!(
                ok == !want.contains(&(r, k)),
                "check of row {}, constraint {} says {}, violated are {:?}: {:?}",
                r,
                k,
                if ok { "satisfied" } else { "violated" },
                want,
                s
            );
        }
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C20",
        rule: "a case counts as non-trivial when the trace violates at least one constraint on an enforced row",
        assumptions: &[
            "constraints have the form relation * exceptions / vanishing polynomial with simple zeros (fractions of \
             fractions are declared unsupported by the checker, but for the inverse of an inverse); inverses of constants may occur anywhere",
            "claim polynomials are substituted before checking, as the interface requires",
            "offsets reach at most one table length",
        ],
        facets: vec![Facet::new("check", 24000, 240000, check), Facet::new("tall", 1600, 12000, tall)],
    }
}
