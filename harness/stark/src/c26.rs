//! C26: serialization of proofs.
use crate::{proto::{self, Dev}, sys::*};
use std::collections::BTreeMap;
use vpbt::{ensure, no_panic, CaseResult, Facet, Fp, Gen, Property};
use zkp_stark::{proof_serialize, prove, Proof};

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    N(u64),
    S(String),
    L(Vec<J>),
    O(BTreeMap<String, J>),
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && b" \t\r\n".contains(&self.b[self.i]) {
            self.i += 1;
        }
    }

    fn peek(&mut self) -> Result<u8, String> {
        self.ws();
        self.b.get(self.i).copied().ok_or_else(|| "unexpected end".to_string())
    }

    fn eat(&mut self, c: u8) -> Result<(), String> {
        if self.peek()? == c {
            self.i += 1;
            return Ok(());
        }
        let end = (self.i + 20).min(self.b.len());
        Err(format!("'{}' expected at {:?}", c as char, String::from_utf8_lossy(&self.b[self.i..end])))
    }

    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let st = self.i;
        while self.i < self.b.len() && self.b[self.i] != b'"' {
            if self.b[self.i] == b'\\' || self.b[self.i] < 32 {
                return Err("escape or control character in a string".into());
            }
            self.i += 1;
        }
        let r = String::from_utf8_lossy(&self.b[st..self.i]).to_string();
        self.eat(b'"')?;
        Ok(r)
    }

    fn value(&mut self) -> Result<J, String> {
        match self.peek()? {
            b'"' => Ok(J::S(self.string()?)),
            b'[' => {
                self.eat(b'[')?;
                let mut v = vec![];
                if self.peek()? == b']' {
                    self.i += 1;
                    return Ok(J::L(v));
                }
                loop {
                    v.push(self.value()?);
                    if self.peek()? == b',' {
                        self.i += 1;
                    } else {
                        self.eat(b']')?;
                        return Ok(J::L(v));
                    }
                }
            }
            b'{' => {
                self.eat(b'{')?;
                let mut m = BTreeMap::new();
                loop {
                    let k = self.string()?;
                    self.eat(b':')?;
                    let v = self.value()?;
                    if m.insert(k.clone(), v).is_some() {
                        return Err(format!("duplicate key {}", k));
                    }
                    if self.peek()? == b',' {
                        self.i += 1;
                    } else {
                        self.eat(b'}')?;
                        return Ok(J::O(m));
                    }
                }
            }
            b'0'..=b'9' => {
                let mut n = 0_u64;
                while self.i < self.b.len() && self.b[self.i].is_ascii_digit() {
                    n = n.wrapping_mul(10).wrapping_add(u64::from(self.b[self.i] - b'0'));
                    self.i += 1;
                }
                Ok(J::N(n))
            }
            _ => {
                let end = (self.i + 20).min(self.b.len());
                Err(format!("value expected at {:?}", String::from_utf8_lossy(&self.b[self.i..end])))
            }
        }
    }
}

pub fn parse(s: &str) -> Result<J, String> {
    let mut p = P { b: s.as_bytes(), i: 0 };
    let v = p.value()?;
    p.ws();
    if p.i != p.b.len() {
        return Err("text after the value".into());
    }
    Ok(v)
}

fn hex(b: &[u8]) -> J {
    J::S(format!("0x{}", b.iter().map(|x| format!("{:02x}", x)).collect::<String>()))
}

fn felts(v: &[Fp]) -> J {
    J::L(v.iter().map(|x| hex(&proto::bytes(*x))).collect())
}

fn hashes(v: &[proto::H]) -> J {
    J::L(v.iter().map(|x| hex(x)).collect())
}

fn serialize(g: &mut Gen) -> CaseResult {
    let tall = g.one_in(12);
    let mut s = system(g, &Limits {
        max_log_rows: if tall { 10 } else { 5 },
        ..Limits::default()
    });
    if g.one_in(3) {
        // so many queries that openings may be empty
        s.blowup = s.eval_degree().max(2);
        s.queries = s.rows * s.blowup * g.usize_in(1, 6);
        s.queries = s.queries.min(120);
    }
    s.describe(g);
    labels(g, &s);
    let c = s.constraints();
    let t = s.table();
    let proof = match no_panic(|| prove(&c, &t)) {
        Ok(Ok(p)) => p,
        o => return vpbt::fail(format!("proving fails ({:?}): {:?}", o.map(|r| r.map(|_| ())), s)),
    };
    // Any nonce that meets the bar makes a proof
    let proof = if g.one_in(3) {
        let from = g.limb();
        g.label_if(from > 0xffff_ffff, "large nonce");
        Proof::from_bytes(proto::prove(&s, &s.trace, &Dev::LaterPow(from)))
    } else {
        proof
    };
    let want = match proto::verify(&s, proof.as_bytes()) {
        Ok(p) => p,
        Err(e) => return vpbt::fail(format!("the proof does not parse ({}): {:?}", e, s)),
    };
    g.nontrivial();
    let prefix = "{\"x\": [],";
    let mut text = prefix.to_string();
    match no_panic(|| proof_serialize(&c, &proof, &mut text)) {
        Ok(Ok(())) => {}
        o => return vpbt::fail(format!("serializing fails with {:?}: {:?}", o, s)),
    }
    ensure!(text.starts_with(prefix), "text already in the buffer is lost");
    text.push('}');
    let j = match parse(&text) {
        Ok(J::O(m)) => m,
        Ok(o) => return vpbt::fail(format!("not an object: {:?}", o)),
        Err(e) => return vpbt::fail(format!("the serialization is not JSON: {}: {:?}", e, s)),
    };
    g.label_if(want.trace_opening.is_empty(), "empty opening");
    g.label_if(want.fri_values.iter().any(|v| v.is_empty()), "no values opened in a layer");
    let fields: Vec<(&str, J)> = vec![
        ("trace_commitment", hex(&want.trace_root)),
        ("constraint_commitment", hex(&want.constraint_root)),
        ("trace_oods_values", felts(&want.trace_values)),
        ("constraint_oods_values", felts(&want.constraint_oods)),
        ("fri_commitments", hashes(&want.fri_roots)),
        ("last_layer_coefficients", felts(&want.last)),
        ("pow_nonce", hex(&want.nonce.to_be_bytes())),
        ("trace_values", felts(&want.trace_rows)),
        ("trace_decommitment", hashes(&want.trace_opening)),
        ("constraint_values", felts(&want.constraint_rows)),
        ("constraint_decommitment", hashes(&want.constraint_open)),
        ("fri_values", J::L(want.fri_values.iter().map(|v| felts(v)).collect())),
        ("fri_decommitments", J::L(want.fri_openings.iter().map(|v| hashes(v)).collect())),
    ];
    for (name, v) in &fields {
        match j.get(*name) {
            Some(x) => ensure!(x == v, "field {} is {:.300?}, the proof has {:.300?}: {:?}", name, x, v, s),
            None => return vpbt::fail(format!("field {} is missing", name)),
        }
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C26",
        rule: "a case counts as non-trivial when a proof was made, parsed by the independent verifier and serialized",
        assumptions: &["the members are compared after enclosing the produced text in braces, as the caller does; \
                        further members are tolerated"],
        facets: vec![Facet::new("serialize", 12000, 120000, serialize)],
    }
}
