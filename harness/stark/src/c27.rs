//! C27: the contracts generated for a constraint system.
use crate::{
    chain::*,
    expr::*,
    proto::{self, Combined, Dev},
    sys::*,
};
use sol::{Machine, V, W};
use std::sync::atomic::{AtomicUsize, Ordering};
use vpbt::{ensure, ensure_eq, gen::Rng, CaseResult, Facet, Fp, Gen, Property};
use zkp_stark::{generate, Constraints, RationalExpression as RE};

/// The exponent of a power of X
fn exponent(e: &E) -> usize {
    match e {
        E::X => 1,
        E::Exp(a, k) => k * exponent(a),
        E::Mul(a, b) => exponent(a) + exponent(b),
        _ => unreachable!(),
    }
}

/// The same expression within what the generator supports: offsets are not
/// negative, no inverse inside an inverse, polynomials in powers of X
fn supported(e: &E, n: usize) -> E {
    let s = |e: &E| Box::new(supported(e, n));
    match e {
        E::X | E::C(_) => e.clone(),
        E::T(c, o) => E::T(*c, if *o >= 0 { *o } else { o.rem_euclid(n as isize) }),
        E::P(p, a) => E::P(
            p.clone(),
            match &**a {
                E::Exp(b, _) if matches!(**b, E::X | E::Exp(..)) => a.clone(),
                E::X => a.clone(),
                a => Box::new(pow(E::X, exponent(a))),
            },
        ),
        E::Q(i, b, a) => E::Q(*i, *b, a.clone()),
        E::Add(a, b) => E::Add(s(a), s(b)),
        E::Mul(a, b) => E::Mul(s(a), s(b)),
        E::Neg(a) => E::Neg(s(a)),
        E::Exp(a, k) => E::Exp(s(a), *k),
        E::Inv(a) => match &**a {
            E::C(c) => E::C(c.inv()),
            _ => E::Inv(s(a)),
        },
    }
}

fn has_inv(e: &E) -> bool {
    match e {
        E::X | E::C(_) | E::T(..) => false,
        E::P(_, a) | E::Q(_, _, a) | E::Neg(a) | E::Exp(a, _) => has_inv(a),
        E::Add(a, b) | E::Mul(a, b) => has_inv(a) || has_inv(b),
        E::Inv(_) => true,
    }
}

fn nested(e: &E) -> bool {
    match e {
        E::X | E::C(_) | E::T(..) => false,
        E::P(_, a) | E::Q(_, _, a) | E::Neg(a) | E::Exp(a, _) => nested(a),
        E::Add(a, b) | E::Mul(a, b) => nested(a) || nested(b),
        E::Inv(a) => has_inv(a),
    }
}

const NAMES: [&str; 60] = [
    "claim_aa",
    "claim_ab",
    "claim_ac",
    "claim_ad",
    "claim_ae",
    "claim_af",
    "claim_ag",
    "claim_ah",
    "claim_ai",
    "claim_aj",
    "claim_ba",
    "claim_bb",
    "claim_bc",
    "claim_bd",
    "claim_be",
    "claim_bf",
    "claim_bg",
    "claim_bh",
    "claim_bi",
    "claim_bj",
    "claim_ca",
    "claim_cb",
    "claim_cc",
    "claim_cd",
    "claim_ce",
    "claim_cf",
    "claim_cg",
    "claim_ch",
    "claim_ci",
    "claim_cj",
    "claim_da",
    "claim_db",
    "claim_dc",
    "claim_dd",
    "claim_de",
    "claim_df",
    "claim_dg",
    "claim_dh",
    "claim_di",
    "claim_dj",
    "claim_ea",
    "claim_eb",
    "claim_ec",
    "claim_ed",
    "claim_ee",
    "claim_ef",
    "claim_eg",
    "claim_eh",
    "claim_ei",
    "claim_ej",
    "claim_fa",
    "claim_fb",
    "claim_fc",
    "claim_fd",
    "claim_fe",
    "claim_ff",
    "claim_fg",
    "claim_fh",
    "claim_fi",
    "claim_fj",
];

/// The distinct claim polynomial terms
fn claims(e: &E, out: &mut Vec<E>) {
    match e {
        E::X | E::C(_) | E::T(..) => {}
        E::Q(..) => {
            if !out.contains(e) {
                out.push(e.clone());
            }
        }
        E::P(_, a) | E::Neg(a) | E::Exp(a, _) | E::Inv(a) => claims(a, out),
        E::Add(a, b) | E::Mul(a, b) => {
            claims(a, out);
            claims(b, out);
        }
    }
}

fn periodics(e: &E, out: &mut Vec<Vec<Fp>>) {
    match e {
        E::X | E::C(_) | E::T(..) | E::Q(..) => {}
        E::P(p, _) => {
            let p: Vec<Fp> = p[..=poly_degree(p)].to_vec();
            if !out.contains(&p) {
                out.push(p);
            }
        }
        E::Neg(a) | E::Exp(a, _) | E::Inv(a) => periodics(a, out),
        E::Add(a, b) | E::Mul(a, b) => {
            periodics(a, out);
            periodics(b, out);
        }
    }
}

fn named(e: &E, q: &[E]) -> RE {
    let s = |e: &E| Box::new(named(e, q));
    match e {
        E::X | E::C(_) | E::T(..) => e.re(),
        E::P(p, a) => RE::Polynomial(dense(p), s(a)),
        E::Q(i, b, a) => RE::ClaimPolynomial(*i, *b, s(a), Some(NAMES[q.iter().position(|x| x == e).unwrap()])),
        E::Add(a, b) => RE::Add(s(a), s(b)),
        E::Mul(a, b) => RE::Mul(s(a), s(b)),
        E::Neg(a) => RE::Neg(s(a)),
        E::Inv(a) => RE::Inv(s(a)),
        E::Exp(a, k) => RE::Exp(s(a), *k),
    }
}

fn refused<T>(m: String) -> Result<T, vpbt::Failure> {
    Err(vpbt::fail(m).unwrap_err())
}

struct Scratch(String);

impl Scratch {
    fn new() -> Scratch {
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!("verif-c27-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p.to_str().unwrap().to_string())
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// The part of `s` from `from` to `to`, both included
fn between<'a>(s: &'a str, from: &str, to: &str) -> Option<&'a str> {
    let a = s.find(from)?;
    let b = a + s[a..].find(to)? + to.len();
    Some(&s[a..b])
}

/// The text of a function
fn function<'a>(s: &'a str, name: &str) -> Option<&'a str> {
    let a = s.find(&format!("function {}(", name))?;
    let mut depth = 0;
    for (i, c) in s[a..].char_indices() {
        match c {
            '{' => depth += 1,
            '}' => {
                depth -= 1;
                if depth == 0 {
                    return Some(&s[a..a + i + 1]);
                }
            }
            _ => {}
        }
    }
    None
}

struct Generated {
    /// Contracts ready to run
    source:    String,
    periodics: usize,
    claims:    Vec<E>,
}

/// Generates the contracts and completes them by hand, as the generator asks
fn contracts(s: &Sys) -> Result<Generated, String> {
    let mut q = vec![];
    for c in &s.cons {
        claims(&c.e, &mut q);
    }
    let mut c = Constraints::from_expressions(
        (s.rows, s.cols),
        s.seed.clone(),
        s.cons.iter().map(|c| named(&c.e, &q)).collect(),
    )
    .expect("valid trace length");
    c.blowup = s.blowup;
    c.pow_bits = s.pow;
    c.num_queries = s.queries;
    c.fri_layout = s.layout.clone();
    let dir = Scratch::new();
    generate(&c, &dir.0, "Sample").map_err(|e| format!("the generator fails: {}", e))?;
    let read = |n: String| std::fs::read_to_string(format!("{}/{}", dir.0, n)).map_err(|e| format!("{}: {}", n, e));
    let mut source = read("SampleConstraintPoly.sol".into())?;
    source.push_str(&read("SampleTrace.sol".into())?);
    let mut periodics = 0;
    while let Ok(t) = read(format!("periodic{}.sol", periodics)) {
        source.push_str(&t);
        periodics += 1;
    }
    let wrapper = read("Sample.sol".into())?;
    let params = between(&wrapper, "uint8 log_trace_length", "return (params, coin);");
    let f = function(&wrapper, "evaluate_oods_point");
    let (params, f) = match (params, f) {
        (Some(p), Some(f)) => (p, f),
        _ => unsupported("the wrapper contract has another form"),
    };
    let mut f = f
        .replace("OddsPoly", "OodsPoly")
        .replace("data.trace_oods_values", "trace_oods_values")
        .replace("trace_oods_values", "data.trace_oods_values");
    // The public inputs, whose names are in a comment
    let mut lines = vec![];
    for l in f.lines() {
        let name = NAMES.iter().position(|n| l.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == *n));
        match name {
            Some(k) => match l.find("= 0;") {
                Some(i) => lines.push(format!("{}= public_input.values[{}];", &l[..i], k)),
                None => unsupported("the wrapper contract has another form"),
            },
            None => lines.push(l.to_string()),
        }
    }
    f = lines.join("\n");
    let mut vars = String::new();
    let mut args = String::new();
    let mut sets = String::new();
    for k in 0..periodics {
        vars.push_str(&format!("    Periodic{} immutable periodic_col{};\n", k, k));
        args.push_str(&format!(", Periodic{} p{}", k, k));
        sets.push_str(&format!(" periodic_col{} = p{};", k, k));
    }
    source.push_str(&format!(
        "
contract Completed is SampleTrace {{
    using PrimeField for uint256;
    using PrimeField for PrimeField.EvalX;
    using Utils for *;
    OodsPoly immutable constraint_poly;
{vars}
    struct PublicInput {{ uint256[] values; }}
    struct ProofData {{ uint256[] trace_oods_values; PrimeField.EvalX eval; }}
    uint256[] public_values;
    constructor(OodsPoly constraint{args}) public {{ constraint_poly = constraint;{sets} }}

    {f}

    function evaluate(uint256 x, uint256[] memory coefficients, uint256[] memory trace_oods_values, uint256[] memory values)
        public returns (uint256)
    {{
        PublicInput memory input = PublicInput(values);
        PrimeField.EvalX memory eval;
        ProofData memory data = ProofData(trace_oods_values, eval);
        return evaluate_oods_point(x, coefficients, eval, input, data);
    }}
    function initalize_system(bytes calldata public_input) external view override
        returns (ProofTypes.ProofParameters memory, PublicCoin.Coin memory)
    {{
        PublicCoin.Coin memory coin = PublicCoin.Coin({{ digest: keccak256(public_input), counter: 0 }});
        {params}
    }}
    function constraint_calculations(
        ProofTypes.OodsEvaluationData memory data,
        uint256[] memory queries,
        uint256 oods_point,
        uint256[] memory coefficients,
        uint256[] memory oods_coefficients
    ) public override returns (uint256[] memory, uint256) {{
        PrimeField.EvalX memory eval = PrimeField.init_eval(data.log_trace_length + {lb});
        uint256[] memory points = get_polynomial_points(data, eval, oods_coefficients, queries, oods_point);
        uint256[] memory values = new uint256[]({nq});
        uint256 x = oods_point.from_montgomery();
        x = x;
{claims}
        return (points, evaluate(oods_point, coefficients, data.trace_oods_values, values));
    }}
}}
",
        vars = vars,
        args = args,
        sets = sets,
        f = f,
        params = params,
        nq = q.len(),
        lb = s.blowup.trailing_zeros(),
        claims = q
            .iter()
            .enumerate()
            .map(|(k, e)| {
                let (p, a) = match e {
                    E::Q(i, _, a) => (&s.claims[*i], exponent(a)),
                    _ => unreachable!(),
                };
                let mut r = "uint256(0)".to_string();
                for c in p.iter().rev() {
                    r = format!("({}).fmul(x.fpow({})).fadd({})", r, a, lit(*c));
                }
                format!("        values[{}] = {};\n", k, r)
            })
            .collect::<String>(),
    ));
    Ok(Generated {
        source,
        periodics,
        claims: q,
    })
}

fn deploy(m: &Machine, c: &Generated) -> Result<W, String> {
    let mut args = vec![V::W(ran(m.deploy("OodsPoly", &[]))?)];
    for k in 0..c.periodics {
        args.push(V::W(ran(m.deploy(&format!("Periodic{}", k), &[]))?));
    }
    ran(m.deploy("Completed", &args))
}

fn sample(g: &mut Gen, max_log_rows: usize) -> Sys {
    let many = g.one_in(200);
    let mut s = system(g, &Limits {
        max_log_rows: if many { max_log_rows.min(4) } else { max_log_rows },
        many,
        ..Limits::default()
    });
    g.label_if(many, "hundreds of constraints");
    s.blowup = s.blowup.min(128);
    s.queries = s.queries.min(255);
    for c in &mut s.cons {
        c.e = supported(&c.e, s.rows);
        c.num = supported(&c.num, s.rows);
    }
    s.cons.retain(|c| !nested(&c.e));
    let mut q = vec![];
    s.cons.retain(|c| {
        claims(&c.e, &mut q);
        q.len() <= NAMES.len()
    });
    if s.cons.is_empty() || s.degree() == 0 || s.adjustments().iter().any(|a| a.is_none()) {
        let num = sub(E::T(0, 0), E::C(s.trace[0]));
        s.cons = vec![Con {
            e: div(num.clone(), sub(E::X, E::C(Fp::one()))),
            num,
            rows: vec![0],
        }];
    }
    // A column that no constraint mentions cannot be laid out otherwise
    s
}

fn tags(g: &mut Gen, s: &Sys, c: &Generated) {
    labels(g, s);
    g.label_if(c.periodics > 0, "periodic columns");
    g.label_if(c.periodics > 1, "several periodic columns");
    g.label_if(c.claims.len() > 1, "several claim terms");
}

/// Periodic columns that resemble one another, and constant arguments. What
/// the constraints say changes, which is of no importance to their evaluation.
fn look_alike(g: &mut Gen, s: &mut Sys) {
    fn walk(g: &mut Gen, e: &E, seen: &mut Vec<Vec<Fp>>) -> E {
        match e {
            E::X | E::C(_) | E::T(..) | E::Q(..) => e.clone(),
            E::P(p, a) => {
                let mut p = p.clone();
                let like: Vec<Vec<Fp>> = seen.iter().filter(|q| q.len() == p.len()).cloned().collect();
                if !like.is_empty() && !p.is_empty() && g.one_in(2) {
                    p = g.pick(&like).clone();
                    let k = g.usize_in(0, p.len() - 1);
                    let top = k + 1 == p.len();
                    let v = p[k] + Fp::from_u64(g.below(3));
                    if !(top && v == Fp::zero()) {
                        p[k] = v;
                    }
                }
                seen.push(p.clone());
                let a = if g.one_in(24) { Box::new(pow(E::X, 0)) } else { a.clone() };
                E::P(p, a)
            }
            E::Add(a, b) => E::Add(Box::new(walk(g, a, seen)), Box::new(walk(g, b, seen))),
            E::Mul(a, b) => E::Mul(Box::new(walk(g, a, seen)), Box::new(walk(g, b, seen))),
            E::Neg(a) => E::Neg(Box::new(walk(g, a, seen))),
            E::Inv(a) => E::Inv(Box::new(walk(g, a, seen))),
            E::Exp(a, k) => E::Exp(Box::new(walk(g, a, seen)), *k),
        }
    }
    let old = s.cons.clone();
    let mut seen = vec![];
    for c in &mut s.cons {
        c.e = walk(g, &c.e, &mut seen);
    }
    if s.degree() == 0 || s.adjustments().iter().any(|a| a.is_none()) {
        s.cons = old;
    }
}

/// The contracts compute the combined constraint
fn value(g: &mut Gen) -> CaseResult {
    let mut s = sample(g, 10);
    if g.one_in(3) {
        look_alike(g, &mut s);
    }
    s.describe(g);
    let c = match contracts(&s) {
        Ok(c) => c,
        Err(e) => return vpbt::fail(format!("{}: {:?}", e, s)),
    };
    tags(g, &s, &c);
    let m = machine(&c.source);
    let addr = match deploy(&m, &c) {
        Ok(a) => a,
        Err(e) => return vpbt::fail(format!("the generated contracts cannot be deployed ({}): {:?}", e, s)),
    };
    let args = s.args();
    for _ in 0..2 {
        let mut rng = Rng::new(g.u64());
        let x = if g.one_in(3) { felt(g) } else { rand_felt(&mut rng) };
        let zeros = g.one_in(4);
        let t: Vec<Fp> = args
            .iter()
            .map(|_| {
                if zeros && g.one_in(2) {
                    Fp::zero()
                } else if g.one_in(6) {
                    felt(g)
                } else {
                    rand_felt(&mut rng)
                }
            })
            .collect();
        let coef: Vec<Fp> = s.cons.iter().flat_map(|_| vec![0, 1]).map(|_| if g.one_in(8) { felt(g) } else { rand_felt(&mut rng) }).collect();
        let tv = |col: usize, o: isize| t[args.iter().position(|a| *a == (col, o)).unwrap()];
        if s.cons.iter().any(|c| c.e.eval(x, &tv, &s.claims).is_none()) {
            continue;
        }
        g.nontrivial();
        let want = proto::combined(&s, &Combined { coef: coef.clone(), adj: s.adjustments().into_iter().map(|a| a.unwrap()).collect() }, x, &tv);
        let q: Vec<V> = c.claims.iter().map(|e| V::W(plain(e.eval(x, &tv, &s.claims).unwrap()))).collect();
        let got = ran(m.call(addr, "evaluate", &[mont(x), monts(&coef), monts(&t), V::L(q)]));
        match got {
            Ok(v) => ensure!(
                v[0] == mont(want),
                "the generated contracts evaluate the constraints to {:?} instead of {:?} at {:?}: {:?}",
                v[0],
                mont(want),
                x,
                s
            ),
            Err(e) => return vpbt::fail(format!("the evaluation in the generated contracts fails ({}): {:?}", e, s)),
        }
    }
    Ok(())
}

/// Every periodic column has its contract
fn periodic(g: &mut Gen) -> CaseResult {
    let mut s = sample(g, 6);
    if g.one_in(2) {
        look_alike(g, &mut s);
    }
    let mut want = vec![];
    for c in &s.cons {
        periodics(&c.e, &mut want);
    }
    s.describe(g);
    let c = match contracts(&s) {
        Ok(c) => c,
        Err(e) => return vpbt::fail(format!("{}: {:?}", e, s)),
    };
    tags(g, &s, &c);
    ensure_eq!(c.periodics, want.len(), "number of contracts for periodic columns: {:?}", s);
    let m = machine(&c.source);
    let mut xs: Vec<Fp> = (0..3).map(|_| felt(g)).collect();
    let mut rng = Rng::new(g.u64());
    xs.push(rand_felt(&mut rng));
    let mut got: Vec<Vec<V>> = vec![];
    for k in 0..c.periodics {
        g.nontrivial();
        let a = ran(m.deploy(&format!("Periodic{}", k), &[])).or_else(refused)?;
        let mut v = vec![];
        for x in &xs {
            v.push(ran(m.call(a, "evaluate", &[V::W(plain(*x))])).or_else(refused)?.remove(0));
        }
        got.push(v);
    }
    let mut wanted: Vec<Vec<V>> = want.iter().map(|p| xs.iter().map(|x| V::W(plain(horner(p, *x)))).collect()).collect();
    let key = |v: &Vec<V>| format!("{:?}", v);
    got.sort_by_key(key);
    wanted.sort_by_key(key);
    ensure!(got == wanted, "the periodic columns' contracts evaluate to {:?} instead of {:?} at {:?}: {:?}", got, wanted, xs, s);
    Ok(())
}

/// A proof of the system is verified with the generated contracts
fn verify(g: &mut Gen) -> CaseResult {
    let mut s = sample(g, 6);
    let lg = s.rows.trailing_zeros() as usize;
    s.layout = vec![3; lg / 3];
    if lg % 3 > 0 {
        s.layout.push(lg % 3);
    }
    let bad = if g.one_in(3) {
        let t = corrupt(g, &s);
        if s.violations(&t).is_empty() {
            None
        } else {
            s.queries = g.usize_in(20, 30);
            Some(t)
        }
    } else {
        None
    };
    s.describe(g);
    let c = match contracts(&s) {
        Ok(c) => c,
        Err(e) => return vpbt::fail(format!("{}: {:?}", e, s)),
    };
    tags(g, &s, &c);
    g.label_if(bad.is_some(), "violating trace");
    let (bytes, map) = proto::prove_map(&s, bad.as_ref().unwrap_or(&s.trace), &Dev::Honest);
    let p = ChainProof::cut(&bytes, &map, s.seed.clone());
    let m = machine(&c.source);
    let cs = match deploy(&m, &c) {
        Ok(a) => a,
        Err(e) => return vpbt::fail(format!("the generated contracts cannot be deployed ({}): {:?}", e, s)),
    };
    g.nontrivial();
    let ver = ran(m.deploy("StarkVerifier", &[])).or_else(refused)?;
    let r = ran(m.call(ver, "verify_proof", &[p.value(&m), V::W(cs)]));
    match (r, bad.is_some()) {
        (Ok(v), false) => {
            ensure!(v[0] == V::W(W::ONE), "the verifier does not return true: {:?}", s);
            Ok(())
        }
        (Err(_), true) => Ok(()),
        (Ok(_), true) => vpbt::fail(format!("with the generated contracts, a proof of a false claim is accepted: {:?}", s)),
        (Err(e), false) => vpbt::fail(format!("with the generated contracts, an honest proof is refused ({}): {:?}", e, s)),
    }
}

pub fn property() -> Property {
    Property {
        id: "C27",
        rule: "a case counts as non-trivial when the generated contracts are run: on a point where no constraint has \
               a pole, on a periodic column, or on a proof",
        assumptions: &[
            "the contracts run under an interpreter of the harness (no Solidity compiler is available here), which \
             is checked on the proofs recorded in the repository",
            "systems within what the generator supports: offsets are not negative, no inverse within an inverse, \
             polynomials in powers of X, claim terms named",
            "the generated wrapper is completed by hand, as it asks for: its function evaluate_oods_point and its \
             parameters are taken from the text, with the names its template leaves undefined",
        ],
        facets: vec![
            Facet::new("value", 30000, 200000, value),
            Facet::new("periodic", 12000, 60000, periodic),
            Facet::new("verify", 9000, 60000, verify),
        ],
    }
}
