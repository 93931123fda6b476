//! C09: the group law.
use super::common::*;
use parity_scale_codec::{Decode, Encode};
use vpbt::{ensure, ensure_eq, CaseResult, Facet, Gen, Property};
use zkp_elliptic_curve::{Affine, Jacobian, BETA, GENERATOR};

fn labels(g: &mut Gen, a: &Pt, b: &Pt) {
    g.label_if(a == b, "equal");
    g.label_if(a != b && *a == neg(b), "opposite");
    g.label_if(a.is_none() || b.is_none(), "infinity");
    if let (Some((x1, y1)), Some((x2, y2))) = (a, b) {
        g.label_if(x1 != x2 && y1 == y2, "equal y");
        g.label_if(x1 != x2 && *y1 == y2.neg(), "opposite y");
    }
    if a.is_some() && b.is_some() {
        g.nontrivial();
    }
}

fn affine(g: &mut Gen) -> CaseResult {
    let a = point(g);
    let b = related(g, &a);
    g.describe(|| format!("a={:?} b={:?}", a, b));
    labels(g, &a, &b);
    let sum = add(&a, &b);
    let diff = add(&a, &neg(&b));
    // the two oracles agree
    assert!(Hom::from(&a).add(Hom::from(&b)).to() == sum && on_curve(&a) && on_curve(&b), "oracle");
    let (p, q) = (aff(&a), aff(&b));
    same(&pt(&(&p + &q)), &sum, "&P + &Q")?;
    same(&pt(&(p.clone() + &q)), &sum, "P + &Q")?;
    same(&pt(&(&p + q.clone())), &sum, "&P + Q")?;
    same(&pt(&(p.clone() + q.clone())), &sum, "P + Q")?;
    let mut r = p.clone();
    r += &q;
    same(&pt(&r), &sum, "P += &Q")?;
    let mut r = p.clone();
    r += q.clone();
    same(&pt(&r), &sum, "P += Q")?;
    same(&pt(&(&p - &q)), &diff, "&P - &Q")?;
    same(&pt(&(p.clone() - &q)), &diff, "P - &Q")?;
    same(&pt(&(&p - q.clone())), &diff, "&P - Q")?;
    same(&pt(&(p.clone() - q.clone())), &diff, "P - Q")?;
    let mut r = p.clone();
    r -= &q;
    same(&pt(&r), &diff, "P -= &Q")?;
    let mut r = p.clone();
    r -= q.clone();
    same(&pt(&r), &diff, "P -= Q")?;
    same(&pt(&p.double()), &add(&a, &a), "double")?;
    let mut r = p.clone();
    r.double_assign();
    same(&pt(&r), &add(&a, &a), "double_assign")?;
    same(&pt(&(-&p)), &neg(&a), "-P")?;
    let mut r = p.clone();
    r.neg_assign();
    same(&pt(&r), &neg(&a), "neg_assign")?;
    ensure!((&p + &q).is_on_curve(), "sum is not on the curve");
    ensure_eq!(p == q, a == b, "equality");
    ensure_eq!(p.x().map(fp), a.map(|(x, _)| x), "x()");
    ensure_eq!(p.y().map(fp), a.map(|(_, y)| y), "y()");
    ensure_eq!(p.as_coordinates().map(|(x, y)| (fp(x), fp(y))), a, "as_coordinates");
    ensure_eq!(p.clone().into_coordinates().map(|(x, y)| (fp(&x), fp(&y))), a, "into_coordinates");
    if let Some((x, y)) = a {
        ensure!(Affine::new(fe(&x), fe(&y)) == p, "new");
    }
    Ok(())
}

fn jacobian(g: &mut Gen) -> CaseResult {
    let a = point(g);
    let b = related(g, &a);
    let (za, zb) = (scaling(g), scaling(g));
    g.describe(|| format!("a={:?} z={:?} b={:?} z={:?}", a, za, b, zb));
    labels(g, &a, &b);
    let sum = add(&a, &b);
    let diff = add(&a, &neg(&b));
    let (p, q) = (jac(&a, &za), jac(&b, &zb));
    same(&ptj(&(&p + &q)), &sum, "&P + &Q")?;
    same(&ptj(&(p.clone() + &q)), &sum, "P + &Q")?;
    same(&ptj(&(&p + q.clone())), &sum, "&P + Q")?;
    same(&ptj(&(p.clone() + q.clone())), &sum, "P + Q")?;
    let mut r = p.clone();
    r += &q;
    same(&ptj(&r), &sum, "P += &Q")?;
    let mut r = p.clone();
    r += q.clone();
    same(&ptj(&r), &sum, "P += Q")?;
    same(&ptj(&(&p - &q)), &diff, "&P - &Q")?;
    same(&ptj(&(p.clone() - &q)), &diff, "P - &Q")?;
    same(&ptj(&(&p - q.clone())), &diff, "&P - Q")?;
    same(&ptj(&(p.clone() - q.clone())), &diff, "P - Q")?;
    let mut r = p.clone();
    r -= &q;
    same(&ptj(&r), &diff, "P -= &Q")?;
    let mut r = p.clone();
    r -= q.clone();
    same(&ptj(&r), &diff, "P -= Q")?;
    // mixed
    let qa = aff(&b);
    let mut r = p.clone();
    r += &qa;
    same(&ptj(&r), &sum, "Jacobian += &Affine")?;
    same(&ptj(&(&p + &qa)), &sum, "&Jacobian + &Affine")?;
    let mut r = p.clone();
    r -= &qa;
    same(&ptj(&r), &diff, "Jacobian -= &Affine")?;
    same(&ptj(&p.double()), &add(&a, &a), "double")?;
    let mut r = p.clone();
    r.double_assign();
    same(&ptj(&r), &add(&a, &a), "double_assign")?;
    same(&ptj(&(-&p)), &neg(&a), "-P")?;
    let mut r = p.clone();
    r.neg_assign();
    same(&ptj(&r), &neg(&a), "neg_assign")?;
    ensure!(p.is_on_curve() && (&p + &q).is_on_curve(), "sum is not on the curve");
    ensure_eq!(p == q, a == b, "equality");
    ensure!(p == jac(&a, &zb), "equality of two representations of one point");
    same(&pt(&Affine::from(&p)), &a, "Affine::from(&Jacobian)")?;
    same(&ptj(&Jacobian::from(&aff(&a))), &a, "Jacobian::from(&Affine)")?;
    same(&ptj(&Jacobian::from(aff(&a))), &a, "Jacobian::from(Affine)")?;
    Ok(())
}

/// Sequences of in-place operations on accumulators of both kinds.
fn history(g: &mut Gen) -> CaseResult {
    let mut m: Vec<Pt> = (0..3).map(|_| point(g)).collect();
    let mut j: Vec<Jacobian> = m.iter().map(|p| jac(p, &scaling(g))).collect();
    let n = g.usize_in(1, 16);
    if n > 3 {
        g.nontrivial();
    }
    let mut ops = vec![];
    for _ in 0..n {
        let (i, k) = (g.below(3) as usize, g.below(3) as usize);
        let op = g.below(7);
        ops.push((op, i, k));
        match op {
            0 => {
                m[i] = add(&m[i], &m[k]);
                let t = j[k].clone();
                j[i] += &t;
            }
            1 => {
                m[i] = add(&m[i], &neg(&m[k]));
                let t = j[k].clone();
                j[i] -= &t;
            }
            2 => {
                m[i] = add(&m[i], &m[i]);
                j[i].double_assign();
            }
            3 => {
                m[i] = neg(&m[i]);
                j[i].neg_assign();
            }
            4 => {
                let t = aff(&m[k]);
                m[i] = add(&m[i], &m[k]);
                j[i] += &t;
            }
            5 => {
                let t = aff(&m[k]);
                m[i] = add(&m[i], &neg(&m[k]));
                j[i] -= &t;
            }
            _ => {
                j[i] = Jacobian::from(&Affine::from(&j[i]));
            }
        }
        for q in 0..3 {
            same(&ptj(&j[q]), &m[q], &format!("register {} after (op,i,k) {:?}", q, ops))?;
            if q > 0 {
                ensure_eq!(j[0] == j[q], m[0] == m[q], "equality after {:?}", ops);
            }
        }
    }
    g.describe(|| format!("{:?}", ops));
    Ok(())
}

fn membership(g: &mut Gen) -> CaseResult {
    let a = point(g);
    g.describe(|| format!("{:?}", a));
    ensure!(fp(&BETA) == beta() && pt(&GENERATOR) == generator(), "curve constants");
    ensure!(aff(&a).is_on_curve(), "point is not on the curve");
    same(&pt(&Affine::ZERO), &None, "Affine::ZERO")?;
    same(&pt(&Affine::default()), &None, "Affine::default")?;
    same(&ptj(&Jacobian::ZERO), &None, "Jacobian::ZERO")?;
    same(&ptj(&Jacobian::default()), &None, "Jacobian::default")?;
    if let Some((x, y)) = a {
        g.nontrivial();
        let d = vpbt::Fp::from_u64(1 + g.below(100));
        for q in vec![Some((x + d, y)), Some((x, y + d)), Some((y, x)), Some((vpbt::Fp::zero(), y))] {
            ensure_eq!(aff(&q).is_on_curve(), on_curve(&q), "is_on_curve of {:?}", q);
            ensure_eq!(jac(&q, &d).is_on_curve(), on_curve(&q), "Jacobian is_on_curve of {:?}", q);
        }
    }
    // encodings
    let p = aff(&a);
    let e = |e: String| vpbt::Failure { msg: e, sig: None };
    let s = serde_json::to_string(&p).map_err(|x| e(x.to_string()))?;
    let b: Affine = serde_json::from_str(&s).map_err(|x| e(x.to_string()))?;
    same(&pt(&b), &a, "JSON round trip")?;
    let s = bincode::serialize(&p).map_err(|x| e(x.to_string()))?;
    let b: Affine = bincode::deserialize(&s).map_err(|x| e(x.to_string()))?;
    same(&pt(&b), &a, "bincode round trip")?;
    let s = p.encode();
    let b = Affine::decode(&mut &s[..]).map_err(|x| e(x.what().to_string()))?;
    same(&pt(&b), &a, "SCALE round trip")?;
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C09",
        rule: "pairs: both points finite; histories: more than three operations; membership: finite point",
        assumptions: &["operands are points of the curve", "the curve constants are those of the STARK curve"],
        facets: vec![
            Facet::new("affine", 40_000, 1_000_000, affine),
            Facet::new("jacobian", 40_000, 1_000_000, jacobian),
            Facet::new("history", 15_000, 400_000, history),
            Facet::new("membership-encoding", 15_000, 300_000, membership),
        ],
    }
}
