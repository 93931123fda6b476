//! C29: the on-chain verifier.
use crate::{
    c23::deviation,
    c26::J,
    chain::*,
    proto::{self, Dev},
    sys::*,
};
use sol::{V, W};
use vpbt::{ensure, CaseResult, Facet, Fp, Gen, Property};

/// A system within what the contracts support: blowup up to 128, at most three
/// foldings at once, at least one query
fn supported(g: &mut Gen, max_log_rows: usize, queries: (usize, usize)) -> Sys {
    let many = queries.1 > 30 && g.one_in(150);
    let max_degree = if g.one_in(6) { 16 } else { 5 };
    let mut s = system(g, &Limits {
        max_log_rows: if many { max_log_rows.min(4) } else { max_log_rows },
        max_degree,
        many,
        ..Limits::default()
    });
    g.label_if(many, "hundreds of constraints");
    s.blowup = s.blowup.min(128);
    s.queries = g.usize_in(queries.0, queries.1);
    let mut l = vec![];
    for k in s.layout.clone() {
        let mut k = k;
        while k > 3 {
            l.push(3);
            k -= 3;
        }
        l.push(k);
    }
    s.layout = l;
    s
}

/// The number of values the parameters prescribe
fn canonical(s: &Sys, p: &ChainProof) -> bool {
    let mut p = p.clone();
    let last = s.rows >> s.layout.iter().sum::<usize>();
    p.list("trace_values").len() == s.queries * s.cols
        && p.list("constraint_values").len() == s.queries * s.eval_degree()
        && p.list("trace_oods_values").len() == s.args().len()
        && p.list("constraint_oods_values").len() == s.eval_degree()
        && p.list("fri_commitments").len() == s.layout.len()
        && p.list("fri_values").len() == s.layout.len()
        && p.list("fri_decommitments").len() == s.layout.len()
        && p.list("last_layer_coefficients").len() == last
}

fn honest(g: &mut Gen) -> CaseResult {
    let s = supported(g, 7, (1, 40));
    s.describe(g);
    labels(g, &s);
    g.nontrivial();
    // any nonce that meets the bar will do
    let dev = if g.one_in(4) { Dev::LaterPow(g.limb()) } else { Dev::Honest };
    let (bytes, map) = proto::prove_map(&s, &s.trace, &dev);
    let p = ChainProof::cut(&bytes, &map, s.seed.clone());
    match on_chain(&s, &p) {
        Ok(v) => {
            ensure!(v == V::W(W::ONE), "the verifier returns {:?} for an honest proof: {:?}", v, s);
            Ok(())
        }
        Err(e) => vpbt::fail(format!("an honest proof is refused on chain ({}): {:?}", e, s)),
    }
}

fn recorded_proofs(g: &mut Gen) -> CaseResult {
    let all = recorded("recurrence_proofs.json");
    let k = g.below(all.len() as u64 + 1) as usize;
    g.nontrivial();
    g.describe(|| format!("recorded proof {}", k));
    if k == all.len() {
        let p = ChainProof::from_json(&recorded("small_fib_proof.json")[0], vec![]);
        let m = machine("");
        let cs = ran(m.deploy("TrivialFib", &[])).unwrap();
        let ver = ran(m.deploy("StarkVerifier", &[])).unwrap();
        let r = ran(m.call(ver, "verify_proof", &[p.value(&m), V::W(cs)]));
        ensure!(r == Ok(vec![V::W(W::ONE)]), "the recorded Fibonacci proof is refused: {:?}", r);
        return Ok(());
    }
    let (index, value) = match &all[k] {
        J::O(o) => match &o["public_inputs"] {
            J::O(p) => (p["index"].clone(), p["value"].clone()),
            _ => panic!(),
        },
        _ => panic!(),
    };
    let (index, value) = match (index, value) {
        (J::N(i), J::S(v)) => (i, vpbt::Nat::from_hex(v.trim_start_matches("0x"))),
        _ => panic!(),
    };
    let mut public = value.to_be_bytes(32);
    public.extend_from_slice(&vpbt::Nat::from_u64(index).to_be_bytes(32));
    let p = ChainProof::from_json(&all[k], public);
    let m = machine("");
    let poly = ran(m.deploy("ConstraintPolyLen256", &[])).unwrap();
    let cs = ran(m.deploy("Recurrence", &[V::W(poly)])).unwrap();
    let ver = ran(m.deploy("StarkVerifier", &[])).unwrap();
    let r = ran(m.call(ver, "verify_proof", &[p.value(&m), V::W(cs)]));
    ensure!(r == Ok(vec![V::W(W::ONE)]), "recorded proof {} is refused: {:?}", k, r);
    Ok(())
}

/// Verdict that the protocol prescribes
fn wanted(s: &Sys, p: &ChainProof) -> Result<(), &'static str> {
    if !canonical(s, p) {
        return Err("wrong number of values");
    }
    let (bytes, ends) = p.join();
    proto::verify_parts(s, &bytes, Some(&ends)).map(|_| ())
}

fn compare(s: &Sys, p: &ChainProof, what: &str) -> CaseResult {
    let want = wanted(s, p);
    match (on_chain(s, p), want) {
        (Ok(v), Ok(())) => {
            ensure!(v == V::W(W::ONE), "the verifier returns {:?} for an acceptable proof ({}): {:?}", v, what, s);
            Ok(())
        }
        (Ok(V::W(v)), Err(_)) if v.is_zero() => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(e)) => vpbt::fail(format!("the verifier on chain accepts an unacceptable proof ({}; {}): {:?}", what, e, s)),
        (Err(e), Ok(())) => vpbt::fail(format!("the verifier on chain refuses an acceptable proof ({}; {}): {:?}", what, e, s)),
    }
}

fn violating(g: &mut Gen, s: &Sys) -> Option<Vec<Fp>> {
    for _ in 0..4 {
        let t = corrupt(g, s);
        if !s.violations(&t).is_empty() {
            return Some(t);
        }
    }
    None
}

fn adversary(g: &mut Gen) -> CaseResult {
    let weak = g.one_in(3);
    let s = supported(g, 5, if weak { (1, 3) } else { (20, 40) });
    let (dev, needs) = match g.below(5) {
        0 => (Dev::ExtraOods, true),
        1 => {
            let m = 16 * (s.rows >> s.layout.iter().sum::<usize>());
            (Dev::LongLast(if g.bool() { m } else { g.usize_in(1, m) }), true)
        }
        _ => deviation(g, &s),
    };
    let bad = if needs || g.one_in(4) { violating(g, &s) } else { None };
    if needs && bad.is_none() {
        return Ok(());
    }
    let what = format!("{:?}, {} trace", dev, if bad.is_some() { "violating" } else { "satisfying" });
    g.describe(|| format!("{}: {:?}", what, s));
    let name = format!("{:?}", dev);
    let name = name.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string();
    g.label(Box::leak(name.into_boxed_str()));
    g.nontrivial();
    let (bytes, map) = proto::prove_map(&s, bad.as_ref().unwrap_or(&s.trace), &dev);
    let p = ChainProof::cut(&bytes, &map, s.seed.clone());
    if wanted(&s, &p).is_ok() {
        g.label("acceptable");
    }
    compare(&s, &p, &what)
}

/// One part of an honest proof altered
fn altered(g: &mut Gen) -> CaseResult {
    let s = supported(g, 6, (1, 30));
    let (bytes, map) = proto::prove_map(&s, &s.trace, &Dev::Honest);
    let mut p = ChainProof::cut(&bytes, &map, s.seed.clone());
    let k = g.below(p.fields.len() as u64) as usize;
    let name = p.fields[k].0;
    let decommitment = name.ends_with("decommitment") || name.ends_with("decommitments") || name == "fri_values" || name == "fri_commitments";
    let modulus = w(&Fp::modulus().to_be_bytes(32));
    let mut rng = vpbt::gen::Rng::new(g.u64());
    let mut word = |g: &mut Gen, x: W| -> (W, &'static str) {
        match g.below(6) {
            0 => (x.xor(W::ONE.shl((g.below(256)).into())), "bit"),
            1 => (x.add(W::ONE), "plus one"),
            2 => (x.add(modulus), "plus modulus"),
            3 => (W([rng.next(), rng.next(), rng.next(), rng.next()]), "random"),
            4 => (W::ZERO, "zero"),
            _ => (x.sub(W::ONE), "minus one"),
        }
    };
    fn lists<'a>(g: &mut Gen, v: &'a mut V) -> &'a mut V {
        let nested = match &*v {
            V::L(l) => matches!(l.first(), Some(V::L(_))),
            _ => false,
        };
        if nested {
            if let V::L(l) = v {
                let i = g.below(l.len() as u64) as usize;
                return lists(g, &mut l[i]);
            }
            unreachable!()
        }
        v
    }
    let what = match lists(g, &mut p.fields[k].1) {
        V::B(b) => {
            if b.is_empty() || g.one_in(3) {
                b.push(g.below(256) as u8);
            } else {
                let i = g.below(b.len() as u64) as usize;
                b[i] ^= 1 << g.below(8);
            }
            "public input"
        }
        V::W(x) => {
            if name == "pow_nonce" {
                *x = x.xor(W::ONE.shl((192 + g.below(64)).into()));
                "nonce"
            } else {
                let (y, what) = word(g, *x);
                *x = y;
                what
            }
        }
        V::L(l) => match g.below(8) {
            0 if !decommitment => {
                let i = g.below(l.len() as u64 + 1) as usize;
                let v = V::W(W([rng.next(), rng.next(), rng.next(), rng.next() >> 6]));
                let v = if g.one_in(3) { V::W(W::ZERO) } else { v };
                l.insert(i, v);
                "one more"
            }
            0 | 1 if !l.is_empty() => {
                let i = g.below(l.len() as u64) as usize;
                let _ = if g.bool() { l.pop() } else { Some(l.remove(i)) };
                "one less"
            }
            2 if l.len() > 1 => {
                let i = g.below(l.len() as u64 - 1) as usize;
                l.swap(i, i + 1);
                "swapped"
            }
            3 if !decommitment && !l.is_empty() => {
                l.push(V::W(W::ZERO));
                "appended zero"
            }
            _ if !l.is_empty() => {
                let i = g.below(l.len() as u64) as usize;
                if let V::W(x) = &mut l[i] {
                    let (y, what) = word(g, *x);
                    *x = y;
                    what
                } else {
                    "nothing"
                }
            }
            _ => "nothing",
        },
    };
    let mut sys = s.clone();
    if let V::B(b) = p.get("public_inputs") {
        sys.seed = b.clone();
    }
    g.describe(|| format!("{} {}: {:?}", name, what, s));
    g.label(name);
    g.label(what);
    if wanted(&sys, &p).is_err() {
        g.nontrivial();
    }
    compare(&sys, &p, &format!("{} {}", name, what))
}

pub fn property() -> Property {
    Property {
        id: "C29",
        rule: "a case counts as non-trivial when an honest proof of a system is verified, or the proof deviates from \
               the protocol",
        assumptions: &[
            "the contracts run under an interpreter of the harness (no Solidity compiler is available here), which \
             is checked on the proofs recorded in the repository",
            "blowup up to 128, at most three foldings per layer; constraint systems are contracts derived from \
             DefaultConstraintSystem",
        ],
        facets: vec![
            Facet::new("recorded-proofs", 60, 60, recorded_proofs),
            Facet::new("honest", 9000, 80000, honest),
            Facet::new("adversary", 12000, 100000, adversary),
            Facet::new("altered", 10000, 80000, altered),
        ],
    }
}
