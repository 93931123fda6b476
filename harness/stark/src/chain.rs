//! The contracts of the repository under the interpreter.
use crate::{
    c26::{parse, J},
    expr::E,
    proto::{self, Map, Parsed, H},
    sys::Sys,
};
use sol::{Contract, Halt, Machine, V, W};
use std::sync::{Arc, OnceLock};
use vpbt::Fp;

pub const DIR: &str = "/repo/crypto/stark-verifier-ethereum";

fn files(dir: &str, out: &mut Vec<String>) {
    let mut v: Vec<_> = std::fs::read_dir(dir).unwrap_or_else(|e| panic!("{}: {}", dir, e)).map(|e| e.unwrap().path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            files(p.to_str().unwrap(), out);
        } else if p.extension().map_or(false, |x| x == "sol") {
            out.push(std::fs::read_to_string(&p).unwrap());
        }
    }
}

/// All contracts of the repository
pub fn contracts() -> Vec<Arc<Contract>> {
    static C: OnceLock<Vec<Arc<Contract>>> = OnceLock::new();
    C.get_or_init(|| {
        let mut src = vec![];
        files(&format!("{}/contracts", DIR), &mut src);
        src.iter()
            .flat_map(|s| sol::parse(s).unwrap_or_else(|e| unsupported(&format!("a contract does not parse: {}", e))))
            .collect()
    })
    .clone()
}

/// The interpreter cannot run the code: no answer
pub fn unsupported(m: &str) -> ! {
    println!("interpreter: {}: no answer", m);
    std::process::exit(3)
}

/// A machine with the contracts of the repository and those of `src`
pub fn machine(src: &str) -> Machine {
    let more = sol::parse(src).unwrap_or_else(|e| unsupported(&format!("a contract of the harness does not parse: {}\n{}", e, src)));
    let m = Machine::new(contracts().into_iter().chain(more));
    m.limit(100_000_000);
    m
}

/// Result of a call; None if it reverted
pub fn ran<T>(r: Result<T, Halt>) -> Result<T, String> {
    match r {
        Ok(v) => Ok(v),
        Err(Halt::Unsupported(m)) if m.contains(sol::DEFINITE) => panic!("contract: {}", m),
        Err(Halt::Unsupported(m)) => unsupported(&m),
        Err(Halt::Revert(m)) => Err(format!("revert {}", m)),
        Err(h) => Err(format!("{:?}", h)),
    }
}

pub fn w(b: &[u8]) -> W {
    W::from_be(b)
}

pub fn n(x: u64) -> V {
    V::W(x.into())
}

pub fn hash(h: &H) -> V {
    V::W(w(h))
}

/// In Montgomery form, as proofs have it
pub fn mont(x: Fp) -> V {
    hash(&proto::bytes(x))
}

pub fn plain(x: Fp) -> W {
    W::from_be(&x.to_nat().to_be_bytes(32))
}

pub fn monts(v: &[Fp]) -> V {
    V::L(v.iter().map(|x| mont(*x)).collect())
}

pub fn hashes(v: &[H]) -> V {
    V::L(v.iter().map(hash).collect())
}

/// Proof in the form of the contracts
#[derive(Clone)]
pub struct ChainProof {
    pub fields: Vec<(&'static str, V)>,
}

impl ChainProof {
    pub fn new(p: &Parsed, public: Vec<u8>) -> ChainProof {
        ChainProof {
            fields: vec![
                ("public_inputs", V::B(public)),
                ("trace_values", monts(&p.trace_rows)),
                ("trace_commitment", hash(&p.trace_root)),
                ("constraint_values", monts(&p.constraint_rows)),
                ("constraint_commitment", hash(&p.constraint_root)),
                ("trace_oods_values", monts(&p.trace_values)),
                ("constraint_oods_values", monts(&p.constraint_oods)),
                ("pow_nonce", nonce(p.nonce)),
                ("trace_decommitment", hashes(&p.trace_opening)),
                ("constraint_decommitment", hashes(&p.constraint_open)),
                ("fri_values", V::L(p.fri_values.iter().map(|v| monts(v)).collect())),
                ("fri_commitments", hashes(&p.fri_roots)),
                ("fri_decommitments", V::L(p.fri_openings.iter().map(|v| hashes(v)).collect())),
                ("last_layer_coefficients", monts(&p.last)),
            ],
        }
    }

    pub fn get(&mut self, name: &str) -> &mut V {
        &mut self.fields.iter_mut().find(|f| f.0 == name).unwrap().1
    }

    pub fn list(&mut self, name: &str) -> &mut Vec<V> {
        match self.get(name) {
            V::L(v) => v,
            _ => panic!("{} is not a list", name),
        }
    }

    /// In the order of the structure's declaration
    pub fn value(&self, m: &Machine) -> V {
        let c = m.world.contract("ProofTypes").unwrap_or_else(|e| unsupported(&e));
        let s = c.structs.iter().find(|s| s.0 == "StarkProof").unwrap_or_else(|| unsupported("no structure StarkProof"));
        V::L(
            s.1.iter()
                .map(|v| {
                    self.fields
                        .iter()
                        .find(|f| f.0 == v.name)
                        .unwrap_or_else(|| unsupported(&format!("unknown part {} of a proof", v.name)))
                        .1
                        .clone()
                })
                .collect(),
        )
    }
}

pub fn nonce(x: u64) -> V {
    let mut b = [0; 32];
    b[..8].copy_from_slice(&x.to_be_bytes());
    V::W(w(&b))
}

/// A recorded proof of the repository
pub fn recorded(file: &str) -> Vec<J> {
    let s = std::fs::read_to_string(format!("{}/test/{}", DIR, file)).unwrap();
    match parse(&s) {
        Ok(J::L(v)) => v,
        Ok(j) => vec![j],
        Err(e) => panic!("{}: {}", file, e),
    }
}

fn jv(j: &J, bytes8: bool) -> V {
    match j {
        J::S(s) => {
            let h = s.trim_start_matches("0x");
            let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            let mut x = [0; 32];
            if bytes8 {
                x[..b.len()].copy_from_slice(&b);
            } else {
                x[32 - b.len()..].copy_from_slice(&b);
            }
            V::W(w(&x))
        }
        J::L(v) => V::L(v.iter().map(|j| jv(j, false)).collect()),
        _ => panic!(),
    }
}

impl ChainProof {
    pub fn from_json(j: &J, public: Vec<u8>) -> ChainProof {
        let o = match j {
            J::O(o) => o,
            _ => panic!(),
        };
        let names = [
            "trace_values",
            "trace_commitment",
            "constraint_values",
            "constraint_commitment",
            "trace_oods_values",
            "constraint_oods_values",
            "pow_nonce",
            "trace_decommitment",
            "constraint_decommitment",
            "fri_values",
            "fri_commitments",
            "fri_decommitments",
            "last_layer_coefficients",
        ];
        let mut fields = vec![("public_inputs", V::B(public))];
        for name in &names {
            fields.push((name, jv(&o[*name], *name == "pow_nonce")));
        }
        ChainProof { fields }
    }
}

impl ChainProof {
    /// From the bytes of a proof and the extent of its parts
    pub fn cut(bytes: &[u8], map: &Map, public: Vec<u8>) -> ChainProof {
        let words = |st: usize, end: usize| V::L(bytes[st..end].chunks(32).map(|c| V::W(w(c))).collect());
        let one = |st: usize, end: usize| V::W(w(&bytes[st..end]));
        let part = |name: &str| {
            let p = map.parts.iter().find(|p| p.0 == name).unwrap();
            (p.1, p.2)
        };
        let list = |name: &str| words(part(name).0, part(name).1);
        let many = |name: &str| V::L(map.parts.iter().filter(|p| p.0 == name).map(|p| words(p.1, p.2)).collect());
        let mut nb = [0; 8];
        nb.copy_from_slice(&bytes[part("nonce").0..part("nonce").1]);
        ChainProof {
            fields: vec![
                ("public_inputs", V::B(public)),
                ("trace_values", list("trace rows")),
                ("trace_commitment", one(part("trace root").0, part("trace root").1)),
                ("constraint_values", list("constraint rows")),
                ("constraint_commitment", one(part("constraint root").0, part("constraint root").1)),
                ("trace_oods_values", list("out-of-domain trace values")),
                ("constraint_oods_values", list("out-of-domain constraint values")),
                ("pow_nonce", nonce(u64::from_be_bytes(nb))),
                ("trace_decommitment", list("trace opening")),
                ("constraint_decommitment", list("constraint opening")),
                ("fri_values", many("folding values")),
                ("fri_commitments", list("folding roots")),
                ("fri_decommitments", many("folding opening")),
                ("last_layer_coefficients", list("final polynomial")),
            ],
        }
    }

    /// The bytes of the proof, and where its lists of a length that depends on
    /// the queries end
    pub fn join(&self) -> (Vec<u8>, Vec<usize>) {
        let mut ends = vec![];
        fn put(v: &V, out: &mut Vec<u8>) {
            match v {
                V::W(x) => out.extend_from_slice(&x.to_be()),
                V::L(l) => l.iter().for_each(|x| put(x, out)),
                V::B(b) => out.extend_from_slice(b),
            }
        }
        let get = |name: &str| &self.fields.iter().find(|f| f.0 == name).unwrap().1;
        let mut out = vec![];
        for name in &["trace_commitment", "constraint_commitment", "trace_oods_values", "constraint_oods_values", "fri_commitments", "last_layer_coefficients"] {
            put(get(name), &mut out);
        }
        if let V::W(x) = get("pow_nonce") {
            out.extend_from_slice(&x.to_be()[..8]);
        }
        for name in &["trace_values", "trace_decommitment", "constraint_values", "constraint_decommitment"] {
            put(get(name), &mut out);
            if name.ends_with("decommitment") {
                ends.push(out.len());
            }
        }
        if let (V::L(a), V::L(b)) = (get("fri_values"), get("fri_decommitments")) {
            for i in 0..a.len().max(b.len()) {
                for l in &[a, b] {
                    if let Some(v) = l.get(i) {
                        put(v, &mut out);
                    }
                    ends.push(out.len());
                }
            }
        }
        (out, ends)
    }
}

const P: &str = "0x0800000000000011000000000000000000000000000000000000000000000001";
const R: &str = "0x07fffffffffffdf0ffffffffffffffffffffffffffffffffffffffffffffffe1";
const RI: &str = "0x0040000000000001100000000000012100000000000000000000000000000000";

pub fn lit(x: Fp) -> String {
    format!("{:?}", plain(x))
}

/// An expression in the language of the contracts, over `x` and `t[..]`
fn code(e: &E, args: &[(usize, isize)], claims: &[Vec<Fp>], out: &mut String, next: &mut usize) -> usize {
    let s = match e {
        E::X => "x".to_string(),
        E::C(c) => lit(*c),
        E::T(c, o) => format!("t[{}]", args.iter().position(|a| *a == (*c, *o)).unwrap()),
        E::P(..) | E::Q(..) => {
            let (p, a) = match e {
                E::P(p, a) => (p, a),
                E::Q(i, _, a) => (&claims[*i], a),
                _ => unreachable!(),
            };
            let a = code(a, args, claims, out, next);
            let mut r = "uint256(0)".to_string();
            for c in p.iter().rev() {
                r = format!("addmod(mulmod({}, v[{}], {}), {}, {})", r, a, P, lit(*c), P);
            }
            r
        }
        E::Add(a, b) => {
            let a = code(a, args, claims, out, next);
            let b = code(b, args, claims, out, next);
            format!("addmod(v[{}], v[{}], {})", a, b, P)
        }
        E::Mul(a, b) => {
            let a = code(a, args, claims, out, next);
            let b = code(b, args, claims, out, next);
            format!("mulmod(v[{}], v[{}], {})", a, b, P)
        }
        E::Neg(a) => {
            let a = code(a, args, claims, out, next);
            format!("mulmod(v[{}], {} - 1, {})", a, P, P)
        }
        E::Inv(a) => {
            let a = code(a, args, claims, out, next);
            format!("power(v[{}], {} - 2)", a, P)
        }
        E::Exp(a, k) => {
            let a = code(a, args, claims, out, next);
            format!("power(v[{}], {})", a, k)
        }
    };
    let k = *next;
    *next += 1;
    out.push_str(&format!("        v[{}] = {};\n", k, s));
    k
}

/// A constraint system contract for a system, written the way the contracts
/// of the repository are meant to be used. The public input is the seed.
pub fn system_contract(s: &Sys) -> String {
    let args = s.args();
    let mut offs: Vec<isize> = args.iter().map(|a| a.1).collect();
    offs.sort_unstable();
    offs.dedup();
    let mut layout = String::new();
    for (k, (c, o)) in args.iter().enumerate() {
        let i = offs.iter().position(|x| x == o).unwrap();
        layout.push_str(&format!("        (r[{}], r[{}]) = ({}, {});\n", 2 * k, 2 * k + 1, 32 * c, 32 * i));
    }
    let mut rows = String::new();
    for (k, o) in offs.iter().enumerate() {
        rows.push_str(&format!("        r[{}] = {};\n", k, o.rem_euclid(s.rows as isize)));
    }
    let mut fri = String::new();
    for (k, f) in s.layout.iter().enumerate() {
        fri.push_str(&format!("        fri[{}] = {};\n", k, f));
    }
    let mut body = String::new();
    let mut next = 0;
    let adj = s.adjustments();
    for (k, c) in s.cons.iter().enumerate() {
        let v = code(&c.e, &args, &s.claims, &mut body, &mut next);
        body.push_str(&format!(
            "        r = addmod(r, mulmod(addmod(c[{}], mulmod(c[{}], power(x, {}), {P}), {P}), v[{}], {P}), {P});\n",
            2 * k,
            2 * k + 1,
            adj[k].unwrap(),
            v,
            P = P
        ));
    }
    format!(
        "
contract HarnessSystem is DefaultConstraintSystem({ed}, {no}, {cols}, {blowup}) {{
    function layout_col_major() internal override pure returns (uint256[] memory) {{
        uint256[] memory r = new uint256[]({nl});
{layout}        return r;
    }}
    function layout_rows() internal override pure returns (uint256[] memory) {{
        uint256[] memory r = new uint256[]({no});
{rows}        return r;
    }}
    function initalize_system(bytes calldata public_input) external view override
        returns (ProofTypes.ProofParameters memory, PublicCoin.Coin memory)
    {{
        PublicCoin.Coin memory coin = PublicCoin.Coin({{ digest: keccak256(public_input), counter: 0 }});
        uint8[] memory fri = new uint8[]({nf});
{fri}        ProofTypes.ProofParameters memory params = ProofTypes.ProofParameters({{
            number_of_columns: {cols},
            log_trace_length: {lg},
            number_of_constraints: {nc},
            log_blowup: {lb},
            constraint_degree: {ed},
            pow_bits: {pow},
            number_of_queries: {queries},
            fri_layout: fri
        }});
        return (params, coin);
    }}
    function constraint_calculations(
        ProofTypes.OodsEvaluationData memory data,
        uint256[] memory queries,
        uint256 oods_point,
        uint256[] memory coefficients,
        uint256[] memory oods_coefficients
    ) public override returns (uint256[] memory, uint256) {{
        PrimeField.EvalX memory eval = PrimeField.init_eval(data.log_trace_length + {lb});
        uint256[] memory t = new uint256[](data.trace_oods_values.length);
        for (uint256 i = 0; i < t.length; i++) {{
            t[i] = mulmod(data.trace_oods_values[i], {RI}, {P});
        }}
        uint256[] memory c = new uint256[](coefficients.length);
        for (uint256 i = 0; i < c.length; i++) {{
            c[i] = mulmod(coefficients[i], {RI}, {P});
        }}
        uint256 r = evaluate(mulmod(oods_point, {RI}, {P}), c, t);
        return (get_polynomial_points(data, eval, oods_coefficients, queries, oods_point), mulmod(r, {R}, {P}));
    }}
    function evaluate(uint256 x, uint256[] memory c, uint256[] memory t) internal returns (uint256 r) {{
        uint256[] memory v = new uint256[]({next});
{body}    }}
    function power(uint256 b, uint256 e) internal returns (uint256 r) {{
        uint256[] memory a = new uint256[](6);
        (a[0], a[1], a[2], a[3], a[4], a[5]) = (32, 32, 32, b, e, {P});
        assembly {{
            if iszero(call(not(0), 0x05, 0, add(a, 0x20), 0xc0, add(a, 0x20), 0x20)) {{ revert(0, 0) }}
            r := mload(add(a, 0x20))
        }}
    }}
}}
",
        ed = s.eval_degree(),
        no = offs.len(),
        cols = s.cols,
        blowup = s.blowup,
        nl = 2 * args.len(),
        layout = layout,
        rows = rows,
        nf = s.layout.len(),
        fri = fri,
        lg = s.rows.trailing_zeros(),
        lb = s.blowup.trailing_zeros(),
        nc = s.cons.len(),
        pow = s.pow,
        queries = s.queries,
        next = next,
        body = body,
        P = P,
        R = R,
        RI = RI,
    )
}

/// Verdict of the on-chain verifier: Ok if it returns, with what it returns
pub fn on_chain(s: &Sys, p: &ChainProof) -> Result<V, String> {
    let m = machine(&system_contract(s));
    let cs = ran(m.deploy("HarnessSystem", &[]))?;
    let ver = ran(m.deploy("StarkVerifier", &[]))?;
    ran(m.call(ver, "verify_proof", &[p.value(&m), V::W(cs)])).map(|mut v| v.remove(0))
}
