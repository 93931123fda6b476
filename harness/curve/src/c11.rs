//! C11: ECDSA.
use super::common::*;
use parity_scale_codec::{Decode, Encode};
use vpbt::{ensure, ensure_eq, fp::Fn, no_panic, CaseResult, Facet, Fp, Gen, Nat, Property};
use zkp_elliptic_curve_crypto::{PrivateKey, PublicKey, Signature};

/// r = x(digest w G + r w Q) mod n, with r and w not zero.
fn equation(q: &Pt, digest: &Fn, r: &Fn, w: &Fn) -> bool {
    if r.is_zero() || w.is_zero() {
        return false;
    }
    let p = add(&mul(&(*digest * *w), &generator()), &mul(&(*r * *w), q));
    p.map_or(false, |(x, _)| Fn::from_nat(&x.to_nat()) == *r)
}

fn verify(q: &Pt, digest: &Fn, r: &Fn, w: &Fn) -> Result<bool, String> {
    no_panic(|| PublicKey::from(aff(q)).verify(&sc(digest), &Signature::new(sc(r), sc(w))))
}

fn agree(q: &Pt, digest: &Fn, r: &Fn, w: &Fn, what: &str) -> CaseResult {
    let want = equation(q, digest, r, w);
    match verify(q, digest, r, w) {
        Ok(got) => ensure_eq!(got, want, "{}: verify(digest={:?}, r={:?}, w={:?}) under {:?}", what, digest, r, w, q),
        Err(e) => return vpbt::fail(format!("{}: verify(digest={:?}, r={:?}, w={:?}) under {:?}: {}", what, digest, r, w, q, e)),
    }
    Ok(())
}

fn key(g: &mut Gen) -> Fn {
    let k = scalar(g);
    if k.is_zero() {
        Fn::one()
    } else {
        k
    }
}

fn sign(g: &mut Gen) -> CaseResult {
    let d = key(g);
    let digest = scalar(g);
    g.describe(|| format!("key={:?} digest={:?}", d, digest));
    g.nontrivial();
    let sk = PrivateKey::from(sc(&d));
    ensure_eq!(fnn(sk.as_scalar_field_element()), d, "as_scalar_field_element");
    let pk = PublicKey::from(&sk);
    let q = mul(&d, &generator());
    same(&pt(pk.as_affine()), &q, "public key")?;
    let s = sk.sign(&sc(&digest));
    let (r, w) = (fnn(s.r()), fnn(s.w()));
    ensure!(pk.verify(&sc(&digest), &s), "own signature is refused");
    ensure!(equation(&q, &digest, &r, &w), "signature r={:?} w={:?} does not satisfy the ECDSA equation", r, w);
    ensure!(PrivateKey::from(sc(&d)).sign(&sc(&digest)) == s, "signing twice differs");
    // the nonce is recoverable as (digest + r d) w; it must depend on the digest
    let k = (digest + r * d) * w;
    ensure!(mul(&k, &generator()).map_or(false, |(x, _)| Fn::from_nat(&x.to_nat()) == r), "nonce and r disagree");
    let delta = match g.below(3) {
        0 => Fn::from_u64(1 + g.below(5)),
        1 => Fn::from_u64(2).pow(g.below(252)),
        _ => key(g),
    };
    let other = digest + delta;
    let s2 = sk.sign(&sc(&other));
    ensure!(fnn(s2.r()) != r, "two digests are signed with the same nonce: the key leaks");
    let d3 = d + delta;
    if !d3.is_zero() {
        let s3 = PrivateKey::from(sc(&d3)).sign(&sc(&digest));
        ensure!(fnn(s3.r()) != r, "two keys sign the same digest with the same nonce");
    }
    // encodings
    let e = |e: String| vpbt::Failure { msg: e, sig: None };
    let t = serde_json::to_string(&s).map_err(|x| e(x.to_string()))?;
    let b: Signature = serde_json::from_str(&t).map_err(|x| e(x.to_string()))?;
    ensure!(b == s, "signature JSON round trip");
    let t = serde_json::to_string(&pk).map_err(|x| e(x.to_string()))?;
    let b: PublicKey = serde_json::from_str(&t).map_err(|x| e(x.to_string()))?;
    ensure!(b == pk, "public key JSON round trip");
    let t = bincode::serialize(&sk).map_err(|x| e(x.to_string()))?;
    let b: PrivateKey = bincode::deserialize(&t).map_err(|x| e(x.to_string()))?;
    ensure!(b == sk, "private key bincode round trip");
    let t = s.encode();
    ensure!(Signature::decode(&mut &t[..]).ok() == Some(s.clone()), "signature SCALE round trip");
    let t = pk.encode();
    ensure!(PublicKey::decode(&mut &t[..]).ok() == Some(pk.clone()), "public key SCALE round trip");
    Ok(())
}

fn altered(g: &mut Gen) -> CaseResult {
    let d = key(g);
    let digest = scalar(g);
    let sk = PrivateKey::from(sc(&d));
    let q = mul(&d, &generator());
    let s = sk.sign(&sc(&digest));
    let (r, w) = (fnn(s.r()), fnn(s.w()));
    let delta = match g.below(3) {
        0 => Fn::one(),
        1 => Fn::one().neg(),
        _ => key(g),
    };
    let (mut q2, mut digest2, mut r2, mut w2) = (q, digest, r, w);
    let what = match g.below(13) {
        0 => {
            digest2 = digest + delta;
            "digest changed"
        }
        1 => {
            r2 = r + delta;
            "r changed"
        }
        2 => {
            w2 = w + delta;
            "w changed"
        }
        3 => {
            q2 = add(&q, &mul(&delta, &generator()));
            "other key"
        }
        4 => {
            r2 = Fn::zero();
            "r zero"
        }
        5 => {
            w2 = Fn::zero();
            "w zero"
        }
        6 => {
            std::mem::swap(&mut r2, &mut w2);
            "swapped"
        }
        7 => {
            w2 = w.neg();
            "w negated"
        }
        8 => {
            r2 = r.neg();
            "r negated"
        }
        9 => {
            q2 = neg(&q);
            "key negated"
        }
        10 => {
            digest2 = digest.neg();
            "digest negated"
        }
        11 => {
            // w replaced by the more common s
            w2 = w.inv();
            "w inverted"
        }
        _ => {
            r2 = scalar(g);
            w2 = scalar(g);
            digest2 = if g.bool() { Fn::zero() } else { scalar(g) };
            "arbitrary"
        }
    };
    g.label(what);
    g.nontrivial();
    g.describe(|| format!("{}: key={:?} digest={:?} r={:?} w={:?}", what, d, digest2, r2, w2));
    agree(&q2, &digest2, &r2, &w2, what)
}

/// Valid triples constructed without a private key, including those where the
/// x coordinate is not below the group order.
fn constructed(g: &mut Gen) -> CaseResult {
    let (a, b) = (scalar(g), key(g));
    let (p, q) = if g.one_in(3) {
        // R with x in [n, p)
        let n = Fn::modulus();
        let width = Fp::modulus().sub(&n);
        let mut x = Fp::from_nat(&n.add(&Nat::from_limbs(&g.limbs4()).rem(&width)));
        let y = loop {
            if let Some(y) = sqrt(&(x * x * x + x + beta())) {
                break y;
            }
            x = x + Fp::one();
            if x.to_nat() < n {
                x = Fp::from_nat(&n);
            }
        };
        g.label("x not below the group order");
        let p = Some((x, y));
        // Q = (R - a G) / b
        let q = mul(&b.inv(), &add(&p, &neg(&mul(&a, &generator()))));
        (p, q)
    } else {
        let q = point(g);
        (add(&mul(&a, &generator()), &mul(&b, &q)), q)
    };
    let x = match p {
        None => return Ok(()),
        Some((x, _)) => x,
    };
    let r = Fn::from_nat(&x.to_nat());
    if r.is_zero() || q.is_none() {
        return Ok(());
    }
    let w = b * r.inv();
    let digest = a * w.inv();
    g.describe(|| format!("key={:?} digest={:?} r={:?} w={:?}", q, digest, r, w));
    g.nontrivial();
    assert!(equation(&q, &digest, &r, &w), "oracle");
    agree(&q, &digest, &r, &w, "constructed")?;
    agree(&q, &(digest + Fn::one()), &r, &w, "constructed, digest changed")?;
    agree(&q, &digest, &(r + Fn::one()), &w, "constructed, r changed")
}

/// Keys that are no curve points, or infinity: refused or judged by the
/// equation, never a panic.
fn odd_keys(g: &mut Gen) -> CaseResult {
    let digest = scalar(g);
    let (r, w) = (scalar(g), scalar(g));
    g.nontrivial();
    if g.one_in(3) {
        g.describe(|| format!("infinity digest={:?} r={:?} w={:?}", digest, r, w));
        match verify(&None, &digest, &r, &w) {
            Ok(ok) => ensure!(!ok || equation(&None, &digest, &r, &w), "accepted under the point at infinity"),
            Err(e) => return vpbt::fail(format!("key infinity: {}", e)),
        }
    } else {
        let p = point(g);
        let d = Fp::from_u64(1 + g.below(1000));
        let q = match p {
            None => Some((d, Fp::zero())),
            Some((x, y)) => Some((x, y + d)),
        };
        if on_curve(&q) {
            return Ok(());
        }
        // Any key admits a triple for the digest zero: R = k Q, w = k / r. The
        // curve constant does not enter, so it also comes out for such a key.
                if g.bool() {
            let q = if g.one_in(3) { Some((q.map_or(d, |p| p.0), Fp::zero())) } else { q };
            let k = 1 + g.below(40);
            let mut m = None;
            for _ in 0..k {
                m = add(&m, &q);
            }
            if let Some((x, _)) = m {
                let x = Fn::from_nat(&x.to_nat());
                if !x.is_zero() && !on_curve(&q) {
                    let (digest, r, w) = (Fn::zero(), x, Fn::from_u64(k) * x.inv());
                    g.label("off-curve forgery");
                    g.describe(|| format!("off-curve key {:?} forged r={:?} w={:?}", q, r, w));
                    return match verify(&q, &digest, &r, &w) {
                        Ok(ok) => {
                            ensure!(!ok, "forged triple r={:?} w={:?} accepted under the key {:?} off the curve", r, w, q);
                            Ok(())
                        }
                        Err(e) => vpbt::fail(format!("off-curve key: {}", e)),
                    };
                }
            }
        }
        g.describe(|| format!("off-curve key {:?} digest={:?} r={:?} w={:?}", q, digest, r, w));
        match verify(&q, &digest, &r, &w) {
            Ok(ok) => ensure!(!ok, "accepted under a key off the curve"),
            Err(e) => return vpbt::fail(format!("off-curve key: {}", e)),
        }
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C11",
        rule: "every case (signatures, single alterations of them, and constructed triples)",
        assumptions: &[
            "private keys are not zero",
            "the negated w of a valid signature satisfies the equation and is accepted (documented malleability)",
        ],
        facets: vec![
            Facet::new("sign-verify", 6_000, 150_000, sign),
            Facet::new("altered", 8_000, 200_000, altered),
            Facet::new("constructed", 5_000, 120_000, constructed),
            Facet::new("odd-keys", 3_000, 50_000, odd_keys),
        ],
    }
}
