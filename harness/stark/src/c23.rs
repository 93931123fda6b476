//! C23: soundness against deviating provers.
use super::{expr::*, proto, proto::Dev, sys::*};
use vpbt::{ensure, no_panic, CaseResult, Facet, Fp, Gen, Property};
#[cfg(not(feature = "nostd"))]
use zkp_stark::prove;
use zkp_stark::{verify, Proof};

/// Verdict of the code: accepted, refused or panicked
pub fn verdict(s: &Sys, bytes: &[u8]) -> Result<bool, String> {
    let c = s.constraints();
    let p = Proof::from_bytes(bytes.to_vec());
    no_panic(|| verify(&c, &p)).map(|r| r.is_ok())
}

/// System with parameters at which cheating succeeds with negligible probability
fn strong(g: &mut Gen, max_log_rows: usize) -> Sys {
    let mut s = system(g, &Limits {
        max_log_rows,
        ..Limits::default()
    });
    s.blowup = s.blowup.max(4);
    while s.rows * s.blowup < 64 {
        s.blowup *= 2;
    }
    s.queries = g.usize_in(40, 60);
    if s.rows * s.blowup == 64 && g.one_in(4) {
        // enough to open every position
        s.queries = g.usize_in(300, 450);
    }
    s
}

/// A trace that violates the system
fn violating(g: &mut Gen, s: &Sys) -> Option<Vec<Fp>> {
    for _ in 0..4 {
        let t = corrupt(g, s);
        if !s.violations(&t).is_empty() {
            return Some(t);
        }
    }
    None
}

#[cfg(not(feature = "nostd"))]
fn refuses_to_prove(g: &mut Gen) -> CaseResult {
    let s = system(g, &Limits {
        max_log_rows: 6,
        ..Limits::default()
    });
    s.describe(g);
    labels(g, &s);
    let t = match violating(g, &s) {
        Some(t) => t,
        None => return Ok(()),
    };
    g.nontrivial();
    let v = s.violations(&t);
    g.label_if(v.len() == 1, "one violation");
    let c = s.constraints();
    let table = s.table_of(&t);
    match no_panic(|| prove(&c, &table)) {
        Ok(Ok(_)) => vpbt::fail(format!("a proof is returned for a trace violating {:?}: {:?}", v, s)),
        Ok(Err(_)) => Ok(()),
        Err(m) => vpbt::fail(format!("proving a violating trace panics with {}: {:?}", m, s)),
    }
}

pub fn deviation(g: &mut Gen, s: &Sys) -> (Dev, bool) {
    // (deviation, needs a violating trace to be a deviation at all)
    let nonzero = |g: &mut Gen| {
        let v = felt(g);
        if v.is_zero() {
            Fp::one()
        } else {
            v
        }
    };
    let args = s.args();
    match g.below(24) {
        0 => (Dev::Honest, true),
        1 => (Dev::SkipAbsorb(g.below((args.len() + s.eval_degree() + s.layout.len() + 4) as u64) as usize), false),
        2 => {
            let mut v = s.seed.clone();
            match g.below(3) {
                0 => v.push(0),
                1 if !v.is_empty() => {
                    let i = g.below(v.len() as u64) as usize;
                    v[i] ^= 1 << g.below(8);
                }
                _ => v.insert(0, 1),
            }
            (Dev::OtherSeed(v), false)
        }
        3 | 4 => (Dev::FudgeOods(g.below(s.eval_degree() as u64) as usize), true),
        5 | 6 => {
            let i = g.below(args.len() as u64) as usize;
            let d = nonzero(g);
            (Dev::TraceValue(i, d, g.bool()), false)
        }
        7 => {
            let i = g.below(s.eval_degree() as u64) as usize;
            (Dev::ConstraintValue(i, nonzero(g)), false)
        }
        8 => (Dev::HighDegreeConstraint(g.bool()), true),
        9 => {
            let c = args[g.below(args.len() as u64) as usize].0;
            (Dev::HighDegreeTrace(c, g.u64()), false)
        }
        10 | 11 => {
            let l = g.below(s.layout.len() as u64) as usize;
            (Dev::FriLayer(l, g.u64(), g.bool()), false)
        }
        12 => {
            let l = g.below(s.layout.len() as u64) as usize;
            (Dev::FriChallenge(l, felt(g)), false)
        }
        13 => {
            let n = s.rows >> s.layout.iter().sum::<usize>();
            let i = g.below(n as u64) as usize;
            (Dev::LastLayer(i, nonzero(g)), false)
        }
        14 if s.pow > 0 => (Dev::BadPow, false),
        15 => {
            let m = (s.rows * s.blowup) as u64;
            let mut q: Vec<usize> = (0..s.queries).map(|_| g.below(m) as usize).collect();
            q.sort_unstable();
            (Dev::Queries(q), false)
        }
        16 => (Dev::Coefficients(g.u64()), false),
        17 => (Dev::OodsPoint(felt_outside(g, s)), false),
        18 => (Dev::Unreduced(g.below(6) as usize), false),
        19 | 20 | 21 => {
            let l = g.below(2 + s.layout.len() as u64) as usize;
            (Dev::Sparse(l, g.u64(), *g.pick(&[2, 4, 16])), false)
        }
        22 | 23 => {
            let l = g.below(2 + s.layout.len() as u64) as usize;
            (Dev::OtherRoot(l, g.u64()), false)
        }
        _ => (Dev::Honest, true),
    }
}

/// A point at which no constraint has a pole and no query falls
fn felt_outside(g: &mut Gen, s: &Sys) -> Fp {
    let mut v = felt(g);
    loop {
        let m = (s.rows * s.blowup) as u64;
        let on = |x: Fp| x.pow(m) == Fp::one() || x.pow(m) == Fp::from_u64(3).pow(m);
        if !v.is_zero() && !on(v) && !on(v.pow(s.eval_degree() as u64)) {
            return v;
        }
        v = v + Fp::one();
    }
}

fn adversary(g: &mut Gen) -> CaseResult {
    let s = strong(g, 5);
    let (dev, needs) = deviation(g, &s);
    let honest = proto::prove(&s, &s.trace, &Dev::Honest);
    let bad = if needs || g.one_in(4) { violating(g, &s) } else { None };
    if needs && bad.is_none() {
        return Ok(());
    }
    g.describe(|| format!("{:?}, {}: {:?}", dev, if bad.is_some() { "violating trace" } else { "satisfying trace" }, s));
    let name = format!("{:?}", dev);
    let name = name.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string();
    g.label(Box::leak(name.clone().into_boxed_str()));
    labels(g, &s);
    let bytes = proto::prove(&s, bad.as_ref().unwrap_or(&s.trace), &dev);
    if bytes == honest {
        g.label("no effect");
        return Ok(());
    }
    g.nontrivial();
    let reference = proto::verify(&s, &bytes);
    if reference.is_ok() {
        // no query fell on an altered position, an unused cell was altered, or the proof of a constant
        // trace with every position opened, which is the same whatever the challenges are
        g.label("acceptable to the protocol");
        ensure!(verdict(&s, &bytes) == Ok(true), "a proof acceptable to the protocol is refused ({:?}): {:?}", dev, s);
        return Ok(());
    }
    match verdict(&s, &bytes) {
        Ok(true) => vpbt::fail(format!(
            "the proof of a prover deviating by {:?} on a {} trace is accepted; the reference verifier refuses it ({}): {:?}",
            dev,
            if bad.is_some() { "violating" } else { "satisfying" },
            reference.unwrap_err(),
            s
        )),
        Ok(false) => Ok(()),
        Err(m) => vpbt::fail(format!("verifying panics with {}: {:?}: {:?}", m, dev, s)),
    }
}

/// A prover who knows where it will be asked: grind the transcript until the
/// few queries avoid the places where it cheated. At such parameters the
/// proof is acceptable to the protocol; both verifiers must agree.
fn agreement(g: &mut Gen) -> CaseResult {
    let mut s = system(g, &Limits {
        max_log_rows: 4,
        ..Limits::default()
    });
    s.queries = g.usize_in(1, 3);
    let (dev, needs) = deviation(g, &s);
    let bad = if needs || g.bool() { violating(g, &s) } else { None };
    g.describe(|| format!("{:?}, {}: {:?}", dev, if bad.is_some() { "violating trace" } else { "satisfying trace" }, s));
    let bytes = proto::prove(&s, bad.as_ref().unwrap_or(&s.trace), &dev);
    let want = proto::verify(&s, &bytes);
    g.nontrivial();
    g.label_if(want.is_ok(), "accepted");
    g.label(match &want {
        Ok(_) => "accepted",
        Err(e) => e,
    });
    match verdict(&s, &bytes) {
        Ok(v) => {
            ensure!(
                v == want.is_ok(),
                "the verifier {} a proof of a prover deviating by {:?}; the protocol says {:?}: {:?}",
                if v { "accepts" } else { "refuses" },
                dev,
                want.err().unwrap_or("accept"),
                s
            );
            Ok(())
        }
        Err(m) => vpbt::fail(format!("verifying panics with {}: {:?}: {:?}", m, dev, s)),
    }
}

/// Larger nonces are acceptable; smaller difficulty is not
fn work(g: &mut Gen) -> CaseResult {
    let mut s = strong(g, 3);
    s.pow = g.usize_in(1, 12);
    s.describe(g);
    g.nontrivial();
    let later = proto::prove(&s, &s.trace, &Dev::LaterPow(if g.one_in(2) { g.limb() } else { 0 }));
    match verdict(&s, &later) {
        Ok(true) => {}
        Ok(false) => return vpbt::fail(format!("a valid larger nonce is refused: {:?}", s)),
        Err(m) => return vpbt::fail(format!("verifying panics with {}: {:?}", m, s)),
    }
    let short = proto::prove(&s, &s.trace, &Dev::BadPow);
    ensure!(verdict(&s, &short) == Ok(false), "a nonce one bit short of the {} bits is not refused: {:?}", s.pow, s);
    Ok(())
}

/// Proof of one statement presented for another
fn other_statement(g: &mut Gen) -> CaseResult {
    let s = strong(g, 5);
    let bytes = proto::prove(&s, &s.trace, &Dev::Honest);
    let mut o = s.clone();
    let what = match g.below(12) {
        0 => {
            let k = g.usize_in(0, 3);
            let old = o.seed.clone();
            o.seed = if g.bool() { g.bytes(k) } else { old.iter().cloned().chain(Some(0)).collect() };
            "public input"
        }
        1 => {
            o.queries += 1;
            "one query more"
        }
        2 => {
            o.queries -= 1;
            "one query less"
        }
        3 => {
            o.pow += 1;
            "more work"
        }
        4 => {
            o.pow = o.pow.saturating_sub(1);
            "less work"
        }
        5 => {
            o.blowup *= 2;
            "larger blowup"
        }
        6 => {
            if o.layout.len() > 1 && g.bool() {
                let k = o.layout.pop().unwrap();
                *o.layout.last_mut().unwrap() += k;
            } else {
                let k = o.layout.pop().unwrap();
                if k > 1 {
                    o.layout.push(k - 1);
                    o.layout.push(1);
                } else if !o.layout.is_empty() {
                } else {
                    o.layout.push(k);
                }
            }
            "folding layout"
        }
        7 => {
            // another boundary value
            let r = g.below(s.rows as u64) as usize;
            let c = g.below(s.cols as u64) as usize;
            let v = s.trace[r * s.cols + c] + Fp::one();
            let num = sub(E::T(c, 0), E::C(v));
            let e = div(num.clone(), sub(E::X, E::C(root(s.rows).pow(r as u64))));
            o.cons.push(Con { num, rows: vec![r], e });
            "additional false constraint"
        }
        8 => {
            // another constant in some constraint
            let k = g.below(o.cons.len() as u64) as usize;
            let num = add(o.cons[k].num.clone(), E::C(Fp::one()));
            let rows = o.cons[k].rows.clone();
            let w = root(s.rows);
            let mut den = E::C(Fp::one());
            for r in &rows {
                den = mul(den, sub(E::X, E::C(w.pow(*r as u64))));
            }
            o.cons[k] = Con {
                e: div(num.clone(), den),
                num,
                rows,
            };
            "shifted relation"
        }
        9 => {
            if o.cons.len() > 1 {
                o.cons.swap(0, 1);
            }
            "constraints reordered"
        }
        10 => {
            if o.cons.len() > 1 {
                let _ = o.cons.pop();
            }
            "constraint dropped"
        }
        _ => {
            if let Some(p) = o.claims.first_mut() {
                p[0] = p[0] + Fp::one();
            }
            "claim polynomial"
        }
    };
    g.label(what);
    // the other system must itself be admissible
    if o.degree() == 0 || o.adjustments().iter().any(|a| a.is_none()) || o.blowup < o.eval_degree() || o.eval_degree() != s.eval_degree() {
        return Ok(());
    }
    let violated = !o.violations(&o.trace).is_empty();
    g.describe(|| format!("proof of {:?} presented for changed {}", s, what));
    let same = !violated && proto::prove(&o, &o.trace, &Dev::Honest) == bytes;
    g.label_if(violated, "other statement is false");
    if same {
        g.label("same proof");
        return Ok(());
    }
    g.nontrivial();
    let reference = proto::verify(&o, &bytes);
    if reference.is_ok() || what.ends_with(" work") {
        // a nonce may meet another difficulty too: the queries do not depend on it; and the proof of a
        // constant trace with every position opened is the same whatever the challenges are
        g.label("acceptable to the protocol");
        return match verdict(&o, &bytes) {
            Ok(v) => {
                ensure!(v == reference.is_ok(), "the verifier {} the proof, the protocol says {:?} ({}): {:?}", if v { "accepts" } else { "refuses" }, reference, what, s);
                Ok(())
            }
            Err(m) => vpbt::fail(format!("verifying panics with {}: {}: {:?}", m, what, o)),
        };
    }
    match verdict(&o, &bytes) {
        Ok(true) => vpbt::fail(format!("a proof of {:?} is accepted for another statement ({}): {:?}", s, what, o)),
        Ok(false) => Ok(()),
        Err(m) => vpbt::fail(format!("verifying panics with {}: {}: {:?}", m, what, o)),
    }
}

pub fn property() -> Property {
    Property {
        id: "C23",
        rule: "a case counts as non-trivial when the trace violates a constraint, or the deviation changed the proof \
               bytes, or the statement presented is another one",
        assumptions: &[
            "deviating provers are drawn from eighteen families built on an independent prover (which knows the whole \
             transcript); cheating succeeds by luck with probability below 2^-60 at the chosen parameters \
             (blowup 4 or more, 40 queries or more, domain of 64 points or more)",
            "at weaker parameters, and for the rare proof that is the same whatever the challenges are (a constant \
             trace with every position opened), the verdict must equal that of an independent verifier of the protocol",
        ],
        facets: vec![
            #[cfg(not(feature = "nostd"))]
            Facet::new("refuses-to-prove", 10000, 150000, refuses_to_prove),
            Facet::new("adversary", 10000, 150000, adversary),
            Facet::new("agreement", 12000, 180000, agreement),
            Facet::new("work", 600, 9000, work),
            Facet::new("other-statement", 4800, 72000, other_statement),
        ],
    }
}
