//! C04: arithmetic of both prime fields is exact and canonical.
use super::common::*;
use rand::{distributions::Standard, Error, Rng, RngCore};
use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
};
use vpbt::{fp::Prime, ensure, ensure_eq, no_panic, CaseResult, Facet, Gen, Nat, Property};
use zkp_primefield::*;
use zkp_u256::U256;

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn arith<K: Pair>(g: &mut Gen) -> CaseResult {
    let a = elem::<K::O>(g);
    let b = related(g, &a);
    g.describe(|| format!("{} a={:?} b={:?}", K::NAME, a, b));
    let (x, y) = (f::<K>(&a), f::<K>(&b));
    if !a.is_zero() && !b.is_zero() && a != b {
        g.nontrivial();
    }
    g.label_if(a == b, "equal operands");
    g.label_if((a + b).is_zero(), "opposite operands");
    macro_rules! forms {
        ($op:tt, $asg:tt, $want:expr, $name:expr) => {
            let want = $want;
            same::<K>(&(&x $op &y), &want, concat!("&a ", $name, " &b"))?;
            same::<K>(&(x.clone() $op &y), &want, concat!("a ", $name, " &b"))?;
            same::<K>(&(&x $op y.clone()), &want, concat!("&a ", $name, " b"))?;
            same::<K>(&(x.clone() $op y.clone()), &want, concat!("a ", $name, " b"))?;
            let mut z = x.clone();
            z $asg &y;
            same::<K>(&z, &want, concat!("a ", $name, "= &b"))?;
            let mut z = x.clone();
            z $asg y.clone();
            same::<K>(&z, &want, concat!("a ", $name, "= b"))?;
        };
    }
    forms!(+, +=, a + b, "+");
    forms!(-, -=, a - b, "-");
    forms!(*, *=, a * b, "*");
    if b.is_zero() {
        ensure!(no_panic(|| &x / &y).is_err(), "a / 0 returns a value");
        ensure!(no_panic(|| x.clone() / y.clone()).is_err(), "a / 0 returns a value");
        ensure!((&y).inv().is_none(), "zero has an inverse");
    } else {
        forms!(/, /=, a * b.inv(), "/");
        match (&y).inv() {
            Some(i) => same::<K>(&i, &b.inv(), "inv(b)")?,
            None => return vpbt::fail("no inverse of a non-zero element"),
        }
    }
    // trait forms
    same::<K>(&x.add_inline(&y), &(a + b), "add_inline")?;
    same::<K>(&x.sub_inline(&y), &(a - b), "sub_inline")?;
    same::<K>(&x.mul_inline(&y), &(a * b), "mul_inline")?;
    same::<K>(&AddInline::add(&x, &y), &(a + b), "AddInline::add")?;
    same::<K>(&SubInline::sub(&x, &y), &(a - b), "SubInline::sub")?;
    same::<K>(&MulInline::mul(&x, &y), &(a * b), "MulInline::mul")?;
    let mut z = x.clone();
    z.add_assign_inline(&y);
    same::<K>(&z, &(a + b), "add_assign_inline")?;
    let mut z = x.clone();
    z.sub_assign_inline(&y);
    same::<K>(&z, &(a - b), "sub_assign_inline")?;
    let mut z = x.clone();
    z.mul_assign_inline(&y);
    same::<K>(&z, &(a * b), "mul_assign_inline")?;
    same::<K>(&(-&x), &a.neg(), "-&a")?;
    same::<K>(&(-x.clone()), &a.neg(), "-a")?;
    same::<K>(&x.neg_inline(), &a.neg(), "neg_inline")?;
    let mut z = x.clone();
    NegInline::neg_assign(&mut z);
    same::<K>(&z, &a.neg(), "neg_assign")?;
    same::<K>(&x.square(), &(a * a), "square")?;
    same::<K>(&x.square_inline(), &(a * a), "square_inline")?;
    let mut z = x.clone();
    z.square_assign();
    same::<K>(&z, &(a * a), "square_assign")?;
    same::<K>(&x.double(), &(a + a), "double")?;
    same::<K>(&x.triple(), &(a + a + a), "triple")?;
    // predicates, equality and hashing
    ensure_eq!(x == y, a == b, "equality");
    ensure_eq!(x != y, a != b, "inequality");
    ensure_eq!(x.is_zero(), a.is_zero(), "is_zero");
    ensure_eq!(x.is_one(), a == O::<K>::one(), "is_one");
    let back = (&x + &y) - &y;
    ensure!(back == x && hash(&back) == hash(&x), "equal elements compare or hash differently");
    ensure_eq!(nat(&x.to_uint()), a.to_nat(), "to_uint");
    same::<K>(&F::<K>::zero(), &O::<K>::zero(), "zero()")?;
    same::<K>(&F::<K>::default(), &O::<K>::zero(), "default()")?;
    same::<K>(&F::<K>::one(), &O::<K>::one(), "one()")?;
    Ok(())
}

fn both(g: &mut Gen) -> CaseResult {
    if g.one_in(3) {
        arith::<Scalar>(g)
    } else {
        arith::<Base>(g)
    }
}

fn powers<K: Pair>(g: &mut Gen) -> CaseResult {
    let a = elem::<K::O>(g);
    let x = f::<K>(&a);
    let l = match g.below(6) {
        0 => {
            // near multiples of the group order
            let mut o = K::O::P;
            vpbt::gen::sub_small(&mut o, g.below(4));
            o
        }
        1 => [g.below(10), 0, 0, 0],
        _ => g.limbs4(),
    };
    let e = Nat::from_limbs(&l);
    g.describe(|| format!("{} a={:?} e={}", K::NAME, a, e.to_hex()));
    if e.bits() > 1 && !a.is_zero() {
        g.nontrivial();
    }
    let u = U256::from_limbs(l);
    same::<K>(&x.pow(&u), &a.pow_nat(&e), "pow(&U256)")?;
    let n = l[0];
    same::<K>(&x.pow(n as usize), &a.pow(n), "pow(usize)")?;
    let m = n as isize;
    let got = x.pow(m);
    if m < 0 && a.is_zero() {
        ensure!(got.is_none(), "zero to a negative power");
    } else {
        let base = if m < 0 { a.inv() } else { a };
        match got {
            Some(r) => same::<K>(&r, &base.pow(m.unsigned_abs() as u64), "pow(isize)")?,
            None => return vpbt::fail(format!("pow({}_isize) is absent", m)),
        }
    }
    same::<K>(&x.pow(&(n as usize)), &a.pow(n), "pow(&usize)")?;
    Ok(())
}

fn powers_both(g: &mut Gen) -> CaseResult {
    if g.one_in(3) {
        powers::<Scalar>(g)
    } else {
        powers::<Base>(g)
    }
}

/// Random number generator replaying chosen words.
struct Words<'a>(&'a mut Gen);

impl RngCore for Words<'_> {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }

    fn next_u64(&mut self) -> u64 {
        match self.0.below(8) {
            0 => u64::MAX,
            1 => 0x0800_0000_0000_0011,
            2 => 0x0800_0000_0000_0010,
            3 => 0,
            _ => self.0.u64(),
        }
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// Operation sequences on a register file.
fn history<K: Pair>(g: &mut Gen) -> CaseResult {
    let mut m: Vec<O<K>> = (0..4).map(|_| elem::<K::O>(g)).collect();
    let mut r: Vec<F<K>> = m.iter().map(f::<K>).collect();
    let steps = g.usize_in(1, 24);
    if steps > 4 {
        g.nontrivial();
    }
    let mut trace = vec![];
    for _ in 0..steps {
        let (i, j, k) = (g.below(4) as usize, g.below(4) as usize, g.below(4) as usize);
        let op = g.below(14);
        trace.push((op, i, j, k));
        match op {
            0 => {
                m[i] = m[j] + m[k];
                r[i] = &r[j] + &r[k];
            }
            1 => {
                m[i] = m[j] - m[k];
                r[i] = &r[j] - &r[k];
            }
            2 => {
                m[i] = m[j] * m[k];
                r[i] = &r[j] * &r[k];
            }
            3 => {
                m[i] = m[j].neg();
                r[i] = -&r[j];
            }
            4 => {
                m[i] = m[j].square();
                r[i] = r[j].square();
            }
            5 => {
                if m[k].is_zero() {
                    ensure!((&r[k]).inv().is_none(), "inverse of zero");
                } else {
                    m[i] = m[j] * m[k].inv();
                    r[i] = &r[j] / &r[k];
                }
            }
            6 => {
                let n = g.below(6) as usize;
                let s = m.iter().cycle().take(n).fold(O::<K>::zero(), |a, b| a + *b);
                m[i] = s;
                r[i] = if g.bool() {
                    r.iter().cycle().take(n).sum()
                } else {
                    r.iter().cycle().take(n).cloned().sum()
                };
            }
            7 => {
                let n = g.below(6) as usize;
                let s = m.iter().cycle().take(n).fold(O::<K>::one(), |a, b| a * *b);
                m[i] = s;
                r[i] = if g.bool() {
                    r.iter().cycle().take(n).product()
                } else {
                    r.iter().cycle().take(n).cloned().product()
                };
            }
            8 => {
                let v = r[j].to_uint();
                ensure_eq!(nat(&v), m[j].to_nat(), "to_uint");
                r[i] = F::<K>::from_uint(&v);
                m[i] = m[j];
            }
            9 => {
                let l = g.limbs4();
                r[i] = F::<K>::from_uint_reduce(&U256::from_limbs(l));
                m[i] = O::<K>::from_nat(&Nat::from_limbs(&l));
            }
            10 => {
                let v: F<K> = Words(g).sample(Standard);
                let l = *v.uint.as_limbs();
                ensure!(
                    Nat::from_limbs(&l) < O::<K>::modulus(),
                    "random sampling stores the unreduced word {:x?}",
                    l
                );
                m[i] = O::<K>::from_mont(l);
                r[i] = v;
            }
            11 => {
                let e = g.below(1000);
                r[i] = r[j].pow(e as usize);
                m[i] = m[j].pow(e);
            }
            12 => {
                let json = serde_json::to_string(&r[j]).map_err(|e| vpbt::Failure { msg: e.to_string(), sig: None })?;
                r[i] = serde_json::from_str(&json).map_err(|e| vpbt::Failure { msg: e.to_string(), sig: None })?;
                m[i] = m[j];
            }
            _ => {
                m[i] = m[i] + m[j];
                m[k] = m[k] * m[i];
                let t = r[j].clone();
                r[i] += t;
                let t = r[i].clone();
                r[k] *= t;
            }
        }
        for q in 0..4 {
            same::<K>(&r[q], &m[q], "register")?;
        }
        for q in 1..4 {
            ensure_eq!(r[0] == r[q], m[0] == m[q], "register equality");
        }
    }
    g.describe(|| format!("{} ops (op,i,j,k)={:?} end={:?}", K::NAME, trace, m));
    Ok(())
}

fn history_both(g: &mut Gen) -> CaseResult {
    if g.one_in(3) {
        history::<Scalar>(g)
    } else {
        history::<Base>(g)
    }
}

/// The constants of a field agree with its modulus.
fn constants<K: Pair>(g: &mut Gen) -> CaseResult {
    let p = O::<K>::modulus();
    ensure_eq!(nat(&F::<K>::modulus()), p, "modulus()");
    ensure_eq!(nat(&F::<K>::MODULUS), p, "MODULUS");
    ensure_eq!(nat(&F::<K>::order()), p.sub(&Nat::one()), "order()");
    let e = elem::<K::O>(g);
    g.describe(|| format!("{} {:?}", K::NAME, e));
    g.nontrivial();
    let u = U256::from_limbs(e.limbs());
    same::<K>(&F::<K>::from_uint(&u), &e, "from_uint")?;
    same::<K>(&F::<K>::from_uint_reduce(&u), &e, "from_uint_reduce")?;
    let x = f::<K>(&e);
    ensure_eq!(*x.as_montgomery().as_limbs(), e.mont(), "as_montgomery");
    Ok(())
}

fn constants_both(g: &mut Gen) -> CaseResult {
    constants::<Scalar>(g)?;
    constants::<Base>(g)
}

/// Sampling reaches the whole field evenly (coarse buckets).
fn sampling(g: &mut Gen) -> CaseResult {
    struct Pure(vpbt::gen::Rng);
    impl RngCore for Pure {
        fn next_u32(&mut self) -> u32 {
            self.next_u64() as u32
        }

        fn next_u64(&mut self) -> u64 {
            self.0.next()
        }

        fn fill_bytes(&mut self, dest: &mut [u8]) {
            for c in dest.chunks_mut(8) {
                let b = self.next_u64().to_le_bytes();
                c.copy_from_slice(&b[..c.len()]);
            }
        }

        fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
            self.fill_bytes(dest);
            Ok(())
        }
    }
    let mut rng = Pure(vpbt::gen::Rng::new(g.u64()));
    g.nontrivial();
    let n = 4096;
    // 16 buckets by the top bits of the internal word: 256 expected in each,
    // standard deviation 15.5; 100 away is beyond 6 sigma.
    let mut top = [0_i64; 16];
    let mut low = [0_i64; 16];
    for _ in 0..n {
        let v: FieldElement = rng.gen();
        let l = *v.as_montgomery().as_limbs();
        ensure!(Nat::from_limbs(&l) < vpbt::Fp::modulus(), "unreduced sample");
        top[((l[3] >> 55) & 15) as usize] += 1;
        low[(l[0] & 15) as usize] += 1;
    }
    g.evals = n;
    for b in top.iter().chain(low.iter()) {
        ensure!((b - 256).abs() < 110, "sampling is uneven: {:?} {:?}", top, low);
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C04",
        rule: "arith: both operands non-zero and distinct; powers: exponent above 1 and base non-zero; history: more than four operations; constants and sampling: every case",
        assumptions: &["the oracle field (engine/src/fp.rs) is right; it is checked against Python's integers by setup.sh"],
        facets: vec![
            Facet::new("arith", 2_000_000, 20_000_000, both),
            Facet::new("powers", 400_000, 2_000_000, powers_both),
            Facet::new("history", 400_000, 2_000_000, history_both),
            Facet::new("constants", 20_000, 200_000, constants_both),
            Facet::new("sampling", 64, 1_000, sampling),
        ],
    }
}
