//! C10: scalar multiplication.
use super::common::*;
use vpbt::{no_panic, CaseResult, Facet, Gen, Property};
use zkp_elliptic_curve::{base_mul, double_base_mul, double_mul, mul as wnaf_mul, window_table_affine, Affine};

fn table(p: &Affine, n: usize) -> Vec<Affine> {
    let mut t = vec![Affine::Zero; n];
    window_table_affine(p, &mut t);
    t
}

fn single(g: &mut Gen) -> CaseResult {
    let a = point(g);
    let k = scalar(g);
    g.describe(|| format!("{:?} * {:?}", k, a));
    g.label_if(k.is_zero(), "zero scalar");
    g.label_if(a.is_none(), "infinity");
    if a.is_some() && k.to_nat().bits() > 7 {
        g.nontrivial();
    }
    let want = mul(&k, &a);
    let (p, s) = (aff(&a), sc(&k));
    let j = jac(&a, &scaling(g));
    let r = no_panic(|| -> CaseResult {
        same(&ptj(&wnaf_mul(&p, &s)), &want, "mul")?;
        same(&ptj(&(&j * &s)), &want, "&Jacobian * &scalar")?;
        same(&ptj(&base_mul(&table(&p, 32), &s)), &want, "base_mul")?;
        Ok(())
    });
    r.unwrap_or_else(|e| vpbt::fail(e))
}

/// Operator forms (slow affine doubling).
fn operators(g: &mut Gen) -> CaseResult {
    let a = point(g);
    let k = scalar(g);
    g.describe(|| format!("{:?} * {:?}", k, a));
    if a.is_some() && k.to_nat().bits() > 7 {
        g.nontrivial();
    }
    let want = mul(&k, &a);
    let (p, s) = (aff(&a), sc(&k));
    let j = jac(&a, &scaling(g));
    same(&pt(&(&p * &s)), &want, "&Affine * &scalar")?;
    match g.below(5) {
        0 => same(&pt(&(p.clone() * &s)), &want, "Affine * &scalar")?,
        1 => same(&pt(&(&p * s.clone())), &want, "&Affine * scalar")?,
        2 => same(&pt(&(p.clone() * s.clone())), &want, "Affine * scalar")?,
        3 => {
            let mut r = p.clone();
            r *= &s;
            same(&pt(&r), &want, "Affine *= &scalar")?
        }
        _ => {
            let mut r = p.clone();
            r *= s.clone();
            same(&pt(&r), &want, "Affine *= scalar")?
        }
    }
    same(&ptj(&(j.clone() * &s)), &want, "Jacobian * &scalar")?;
    same(&ptj(&(&j * s.clone())), &want, "&Jacobian * scalar")?;
    same(&ptj(&(j.clone() * s.clone())), &want, "Jacobian * scalar")?;
    let mut r = j.clone();
    r *= &s;
    same(&ptj(&r), &want, "Jacobian *= &scalar")?;
    let mut r = j.clone();
    r *= s.clone();
    same(&ptj(&r), &want, "Jacobian *= scalar")
}

fn double(g: &mut Gen) -> CaseResult {
    let a = point(g);
    let b = related(g, &a);
    let k = scalar(g);
    let l = match g.below(5) {
        0 => k,
        1 => k.neg(),
        2 => k + vpbt::fp::Fn::from_u64(g.below(40)),
        _ => scalar(g),
    };
    g.describe(|| format!("{:?} * {:?} + {:?} * {:?}", k, a, l, b));
    if a.is_some() && b.is_some() && !k.is_zero() && !l.is_zero() {
        g.nontrivial();
    }
    let want = add(&mul(&k, &a), &mul(&l, &b));
    let (p, q) = (aff(&a), aff(&b));
    let (s, t) = (sc(&k), sc(&l));
    let r = no_panic(|| -> CaseResult {
        same(&ptj(&double_mul(&p, &s, &q, &t)), &want, "double_mul")?;
        same(&ptj(&double_base_mul(&table(&p, 32), &s, &q, &t)), &want, "double_base_mul")
    });
    r.unwrap_or_else(|e| vpbt::fail(e))
}

fn tables(g: &mut Gen) -> CaseResult {
    let a = point(g);
    let n = g.usize_in(1, 40);
    g.describe(|| format!("table of {} of {:?}", n, a));
    if a.is_some() && n > 1 {
        g.nontrivial();
    }
    let t = table(&aff(&a), n);
    let two = add(&a, &a);
    let mut e = a;
    for (i, x) in t.iter().enumerate() {
        same(&pt(x), &e, &format!("window table entry {}", i))?;
        e = add(&e, &two);
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C10",
        rule: "single: finite point and a scalar above 7 bits; double: finite points and non-zero scalars; tables: more than one entry",
        assumptions: &["a base table has 32 entries (the window of base_mul is 7)"],
        facets: vec![
            Facet::new("single", 15_000, 400_000, single),
            Facet::new("operators", 3_000, 60_000, operators),
            Facet::new("double", 15_000, 400_000, double),
            Facet::new("tables", 3_000, 60_000, tables),
        ],
    }
}
