//! C24: altered proof bytes.
use super::{c23::verdict, expr::*, proto, proto::Dev, sys::*};
use vpbt::{gen::Rng, CaseResult, Facet, Gen, Nat, Property};

fn limits() -> Limits {
    Limits {
        max_log_rows: 5,
        ..Limits::default()
    }
}

/// The code must refuse whatever the reference verifier refuses, and never
/// panic. (The only alteration the protocol tolerates is another valid nonce
/// that selects the same queries.)
fn refuse(s: &Sys, original: &[u8], altered: &[u8], what: &str) -> CaseResult {
    if altered == original {
        return Ok(());
    }
    match verdict(s, altered) {
        Ok(false) => Ok(()),
        Ok(true) => {
            if proto::verify(s, altered).is_ok() {
                return Ok(());
            }
            vpbt::fail(format!("a proof is accepted after {}: {:?}", what, s))
        }
        Err(m) => vpbt::fail(format!("verifying panics with {} after {}: {:?}", m, what, s)),
    }
}

fn word(map: &proto::Map, g: &mut Gen) -> Option<(&'static str, usize)> {
    let parts: Vec<_> = map.parts.iter().filter(|p| p.2 > p.1).collect();
    let p = g.pick(&parts);
    let n = ((p.2 - p.1) / 32) as u64;
    if n == 0 {
        return None;
    }
    Some((p.0, p.1 + 32 * g.below(n) as usize))
}

fn alter(g: &mut Gen) -> CaseResult {
    let s = system(g, &limits());
    labels(g, &s);
    let (honest, map) = proto::prove_map(&s, &s.trace, &Dev::Honest);
    match verdict(&s, &honest) {
        Ok(true) => {}
        o => return vpbt::fail(format!("the honest proof is not accepted ({:?}): {:?}", o, s)),
    }
    g.nontrivial();
    let parts: Vec<_> = map.parts.iter().filter(|p| p.2 > p.1).cloned().collect();
    // another proof for splicing
    let other = {
        let mut o = s.clone();
        o.seed.push(7);
        proto::prove(&o, &o.trace, &Dev::Honest)
    };
    for _ in 0..10 {
        let mut b = honest.clone();
        let what: String = match g.below(12) {
            // every part is hit equally often, however short
            0 | 1 | 2 | 3 => {
                let p = g.pick(&parts);
                let i = p.1 + g.below((p.2 - p.1) as u64) as usize;
                let bit = g.below(8);
                b[i] ^= 1 << bit;
                g.label(p.0);
                format!("flipping bit {} of byte {} ({})", bit, i, p.0)
            }
            4 => {
                let p = g.pick(&parts);
                let i = p.1 + g.below((p.2 - p.1) as u64) as usize;
                let v = g.u64() as u8;
                b[i] = v;
                format!("setting byte {} ({}) to {}", i, p.0, v)
            }
            5 => {
                let n = match g.below(4) {
                    0 => b.len() - 1,
                    1 => b.len() - 32.min(b.len()),
                    2 => {
                        let p = g.pick(&parts);
                        p.1
                    }
                    _ => g.below(b.len() as u64) as usize,
                };
                b.truncate(n);
                g.label("truncated");
                format!("truncating to {} of {} bytes", n, honest.len())
            }
            6 => {
                let n = *g.pick(&[1_usize, 8, 31, 32, 33, 64, 320, 256, 4096, 1 << 16, 1 << 20]);
                let z = g.bool();
                let extra = if z {
                    vec![0; n]
                } else if n > 320 {
                    vec![g.bytes(1)[0]; n]
                } else {
                    g.bytes(n)
                };
                b.extend_from_slice(&extra);
                g.label("extended");
                format!("appending {} {} bytes", n, if z { "zero" } else { "random" })
            }
            7 => match word(&map, g) {
                Some((name, at)) => {
                    // another representation of the same residue
                    let v = Nat::from_be_bytes(&b[at..at + 32]).add(&vpbt::Fp::modulus());
                    if v.bits() > 256 {
                        continue;
                    }
                    b[at..at + 32].copy_from_slice(&v.to_be_bytes(32));
                    g.label("unreduced element");
                    format!("adding the modulus to the word at {} ({})", at, name)
                }
                None => continue,
            },
            8 => {
                // swap two words
                match (word(&map, g), word(&map, g)) {
                    (Some((n, i)), Some((m, j))) => {
                        let w = b[i..i + 32].to_vec();
                        let (lo, hi) = (i.min(j), i.max(j));
                        if lo == hi {
                            continue;
                        }
                        let v = b[j..j + 32].to_vec();
                        b[i..i + 32].copy_from_slice(&v);
                        b[j..j + 32].copy_from_slice(&w);
                        g.label("words swapped");
                        format!("swapping the words at {} ({}) and {} ({})", i, n, j, m)
                    }
                    _ => continue,
                }
            }
            9 => {
                let p = g.pick(&parts);
                let k = (p.2).min(other.len());
                if p.1 >= k {
                    continue;
                }
                b[p.1..k].copy_from_slice(&other[p.1..k]);
                g.label("spliced");
                format!("splicing {} of another proof", p.0)
            }
            10 => match word(&map, g) {
                Some((n, i)) => {
                    let v = if g.bool() { [0; 32] } else { [0xff; 32] };
                    b[i..i + 32].copy_from_slice(&v);
                    format!("overwriting the word at {} ({}) with {:x}s", i, n, v[0])
                }
                None => continue,
            },
            _ => match word(&map, g) {
                Some((n, i)) => {
                    // remove or duplicate a word
                    if g.bool() {
                        let _ = b.drain(i..i + 32);
                        format!("removing the word at {} ({})", i, n)
                    } else {
                        let w = b[i..i + 32].to_vec();
                        let tail = b.split_off(i);
                        b.extend_from_slice(&w);
                        b.extend_from_slice(&tail);
                        format!("duplicating the word at {} ({})", i, n)
                    }
                }
                None => continue,
            },
        };
        g.describe(|| format!("{}: {:?}", what, s));
        refuse(&s, &honest, &b, &what)?;
    }
    Ok(())
}

fn garbage(g: &mut Gen) -> CaseResult {
    let mut s = system(g, &limits());
    if g.bool() {
        s.pow = 0;
    }
    let honest = proto::prove(&s, &s.trace, &Dev::Honest);
    let n = match g.below(5) {
        0 => 0,
        1 => g.usize_in(0, 100),
        2 => g.usize_in(0, honest.len()),
        _ => honest.len(),
    };
    let fill = g.below(4);
    let b: Vec<u8> = match fill {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => {
            let mut r = Rng::new(g.u64());
            (0..n).map(|_| r.next() as u8).collect()
        }
    };
    g.describe(|| format!("{} bytes, kind {}: {:?}", n, fill, s));
    if n > 0 {
        g.nontrivial();
    }
    refuse(&s, &honest, &b, &format!("replacing it by {} unrelated bytes", n))
}

/// Every byte of one small proof, every truncation
fn exhaustive(g: &mut Gen) -> CaseResult {
    let mut s = system(g, &Limits {
        max_log_rows: 2,
        max_cols: 2,
        max_degree: 2,
        ..Limits::default()
    });
    s.blowup = s.eval_degree().max(2);
    s.queries = g.usize_in(1, 3);
    s.describe(g);
    g.nontrivial();
    let honest = proto::prove(&s, &s.trace, &Dev::Honest);
    let bit = g.below(8);
    for i in 0..honest.len() {
        let mut b = honest.clone();
        b[i] ^= 1 << bit;
        refuse(&s, &honest, &b, &format!("flipping bit {} of byte {}", bit, i))?;
    }
    for i in 0..honest.len() {
        refuse(&s, &honest, &honest[..i], &format!("truncating to {} of {} bytes", i, honest.len()))?;
    }
    let _ = root(1);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C24",
        rule: "a case counts as non-trivial when an accepted proof is altered, or a non-empty byte string is presented",
        assumptions: &["an altered proof is tolerated only if an independent verifier of the protocol accepts it: \
                        another valid nonce that selects the same queries"],
        facets: vec![
            Facet::new("alter", 12000, 90000, alter),
            Facet::new("garbage", 12000, 135000, garbage),
            Facet::new("exhaustive", 240, 3600, exhaustive),
        ],
    }
}
