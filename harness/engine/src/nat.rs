//! Oracle integers: arbitrary-size naturals on base 2^32 digits, written
//! independently of the code under test (schoolbook algorithms only).

use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Nat(Vec<u32>); // little endian, no leading zeros

impl PartialOrd for Nat {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

impl Ord for Nat {
    fn cmp(&self, o: &Self) -> Ordering {
        if self.0.len() != o.0.len() {
            return self.0.len().cmp(&o.0.len());
        }
        for i in (0..self.0.len()).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        Ordering::Equal
    }
}

impl Nat {
    fn trim(mut v: Vec<u32>) -> Nat {
        while v.last() == Some(&0) {
            v.pop();
        }
        Nat(v)
    }

    pub fn zero() -> Nat {
        Nat(vec![])
    }

    pub fn one() -> Nat {
        Nat(vec![1])
    }

    pub fn from_u64(x: u64) -> Nat {
        Nat::from_limbs(&[x])
    }

    pub fn from_u128(x: u128) -> Nat {
        Nat::from_limbs(&[x as u64, (x >> 64) as u64])
    }

    pub fn from_limbs(l: &[u64]) -> Nat {
        let mut v = Vec::with_capacity(l.len() * 2);
        for x in l {
            v.push(*x as u32);
            v.push((*x >> 32) as u32);
        }
        Nat::trim(v)
    }

    pub fn from_be_bytes(b: &[u8]) -> Nat {
        let mut r = Nat::zero();
        for x in b {
            r = r.shl(8).add(&Nat::from_u64(u64::from(*x)));
        }
        r
    }

    /// Little endian limbs of the value mod 2^(64 n).
    pub fn limbs(&self, n: usize) -> Vec<u64> {
        (0..n)
            .map(|i| {
                let lo = u64::from(*self.0.get(2 * i).unwrap_or(&0));
                let hi = u64::from(*self.0.get(2 * i + 1).unwrap_or(&0));
                lo | (hi << 32)
            })
            .collect()
    }

    pub fn limbs4(&self) -> [u64; 4] {
        let v = self.limbs(4);
        [v[0], v[1], v[2], v[3]]
    }

    pub fn low_u64(&self) -> u64 {
        self.limbs(1)[0]
    }

    pub fn to_be_bytes(&self, n: usize) -> Vec<u8> {
        (0..n)
            .rev()
            .map(|i| {
                let d = *self.0.get(i / 4).unwrap_or(&0);
                (d >> (8 * (i % 4))) as u8
            })
            .collect()
    }

    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }

    pub fn is_odd(&self) -> bool {
        self.bit(0)
    }

    pub fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(d) => self.0.len() * 32 - d.leading_zeros() as usize,
        }
    }

    pub fn bit(&self, i: usize) -> bool {
        self.0.get(i / 32).map_or(false, |d| (d >> (i % 32)) & 1 == 1)
    }

    pub fn add(&self, o: &Nat) -> Nat {
        let n = self.0.len().max(o.0.len());
        let mut v = Vec::with_capacity(n + 1);
        let mut c = 0_u64;
        for i in 0..n {
            c += u64::from(*self.0.get(i).unwrap_or(&0)) + u64::from(*o.0.get(i).unwrap_or(&0));
            v.push(c as u32);
            c >>= 32;
        }
        v.push(c as u32);
        Nat::trim(v)
    }

    /// self - o, requires self >= o
    pub fn sub(&self, o: &Nat) -> Nat {
        assert!(*self >= *o, "oracle: negative result");
        let mut v = Vec::with_capacity(self.0.len());
        let mut b = 0_i64;
        for i in 0..self.0.len() {
            let mut d = i64::from(self.0[i]) - i64::from(*o.0.get(i).unwrap_or(&0)) - b;
            b = 0;
            if d < 0 {
                d += 1 << 32;
                b = 1;
            }
            v.push(d as u32);
        }
        Nat::trim(v)
    }

    pub fn mul(&self, o: &Nat) -> Nat {
        let mut v = vec![0_u32; self.0.len() + o.0.len()];
        for i in 0..self.0.len() {
            let mut c = 0_u64;
            for j in 0..o.0.len() {
                c += u64::from(v[i + j]) + u64::from(self.0[i]) * u64::from(o.0[j]);
                v[i + j] = c as u32;
                c >>= 32;
            }
            v[i + o.0.len()] = c as u32;
        }
        Nat::trim(v)
    }

    pub fn shl(&self, n: usize) -> Nat {
        let mut v = vec![0_u32; n / 32];
        let s = n % 32;
        let mut c = 0_u64;
        for d in &self.0 {
            c |= u64::from(*d) << s;
            v.push(c as u32);
            c >>= 32;
        }
        v.push(c as u32);
        Nat::trim(v)
    }

    pub fn shr(&self, n: usize) -> Nat {
        let k = n / 32;
        let s = n % 32;
        let mut v = Vec::new();
        for i in k..self.0.len() {
            let lo = u64::from(self.0[i]);
            let hi = u64::from(*self.0.get(i + 1).unwrap_or(&0));
            v.push((((hi << 32) | lo) >> s) as u32);
        }
        Nat::trim(v)
    }

    pub fn low_bits(&self, n: usize) -> Nat {
        let mut v: Vec<u32> = self.0.iter().copied().take((n + 31) / 32).collect();
        if n % 32 != 0 && v.len() == n / 32 + 1 {
            let l = v.len() - 1;
            v[l] &= (1 << (n % 32)) - 1;
        }
        Nat::trim(v)
    }

    /// Bitwise binary operation.
    pub fn bitop(&self, o: &Nat, f: impl Fn(u32, u32) -> u32) -> Nat {
        let n = self.0.len().max(o.0.len());
        Nat::trim(
            (0..n)
                .map(|i| f(*self.0.get(i).unwrap_or(&0), *o.0.get(i).unwrap_or(&0)))
                .collect(),
        )
    }

    /// Shift-and-subtract division: the slow, obviously right definition.
    pub fn div_rem_slow(&self, d: &Nat) -> (Nat, Nat) {
        assert!(!d.is_zero(), "oracle: division by zero");
        let mut q = vec![0_u32; self.0.len()];
        let mut r = Nat::zero();
        for i in (0..self.bits()).rev() {
            r = r.shl(1);
            if self.bit(i) {
                r = r.add(&Nat::one());
            }
            if r >= *d {
                r = r.sub(d);
                q[i / 32] |= 1 << (i % 32);
            }
        }
        (Nat::trim(q), r)
    }

    /// Schoolbook long division on 32 bit digits. The quotient digit is found
    /// from the two top digits and then corrected by comparison, so it does not
    /// rely on the classical "at most two corrections" argument.
    pub fn div_rem(&self, d: &Nat) -> (Nat, Nat) {
        assert!(!d.is_zero(), "oracle: division by zero");
        if *self < *d {
            return (Nat::zero(), self.clone());
        }
        if d.0.len() == 1 {
            let m = u64::from(d.0[0]);
            let mut q = vec![0_u32; self.0.len()];
            let mut r = 0_u64;
            for i in (0..self.0.len()).rev() {
                r = (r << 32) | u64::from(self.0[i]);
                q[i] = (r / m) as u32;
                r %= m;
            }
            return (Nat::trim(q), Nat::from_u64(r));
        }
        let n = d.0.len();
        let shift = d.0[n - 1].leading_zeros() as usize;
        let dn = d.shl(shift);
        let top = u64::from(dn.0[n - 1]);
        let num = self.shl(shift);
        let mut r = Nat::zero();
        let mut q = vec![0_u32; num.0.len()];
        for i in (0..num.0.len()).rev() {
            // r = r * 2^32 + digit
            let mut rv = Vec::with_capacity(r.0.len() + 1);
            rv.push(num.0[i]);
            rv.extend_from_slice(&r.0);
            r = Nat::trim(rv);
            let hi = u64::from(*r.0.get(n).unwrap_or(&0));
            let lo = u64::from(*r.0.get(n - 1).unwrap_or(&0));
            let mut qd = (((hi << 32) | lo) / top).min(0xffff_ffff);
            let mut prod = dn.mul(&Nat::from_u64(qd));
            while prod > r {
                qd -= 1;
                prod = prod.sub(&dn);
            }
            r = r.sub(&prod);
            while r >= dn {
                qd += 1;
                r = r.sub(&dn);
            }
            q[i] = qd as u32;
        }
        (Nat::trim(q), r.shr(shift))
    }

    pub fn rem(&self, d: &Nat) -> Nat {
        self.div_rem(d).1
    }

    pub fn pow_mod(&self, e: &Nat, m: &Nat) -> Nat {
        let mut r = Nat::one().rem(m);
        let b = self.rem(m);
        for i in (0..e.bits()).rev() {
            r = r.mul(&r).rem(m);
            if e.bit(i) {
                r = r.mul(&b).rem(m);
            }
        }
        r
    }

    /// Classical Euclid.
    pub fn gcd(&self, o: &Nat) -> Nat {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() {
            let r = a.rem(&b);
            a = b;
            b = r;
        }
        a
    }

    /// Inverse of self mod m by the classical extended Euclid with signed
    /// cofactors kept mod m; None if not coprime (or m == 0).
    pub fn inv_mod(&self, m: &Nat) -> Option<Nat> {
        if m.is_zero() {
            return None;
        }
        let (mut r0, mut r1) = (m.clone(), self.rem(m));
        let (mut t0, mut t1) = (Nat::zero(), Nat::one().rem(m));
        while !r1.is_zero() {
            let (q, r) = r0.div_rem(&r1);
            let qt = q.mul(&t1).rem(m);
            let t = if t0 >= qt { t0.sub(&qt) } else { t0.add(m).sub(&qt) };
            r0 = r1;
            r1 = r;
            t0 = t1;
            t1 = t;
        }
        if r0 == Nat::one() {
            Some(t0.rem(m))
        } else {
            None
        }
    }

    pub fn from_dec(s: &str) -> Nat {
        let mut r = Nat::zero();
        for b in s.bytes() {
            assert!(b.is_ascii_digit());
            r = r.mul(&Nat::from_u64(10)).add(&Nat::from_u64(u64::from(b - b'0')));
        }
        r
    }

    pub fn to_dec(&self) -> String {
        if self.is_zero() {
            return "0".to_string();
        }
        let mut v = Vec::new();
        let mut x = self.clone();
        while !x.is_zero() {
            let (q, r) = x.div_rem(&Nat::from_u64(10));
            v.push(b'0' + r.low_u64() as u8);
            x = q;
        }
        v.reverse();
        String::from_utf8(v).unwrap()
    }

    pub fn from_hex(s: &str) -> Nat {
        let mut r = Nat::zero();
        for c in s.chars() {
            r = r.shl(4).add(&Nat::from_u64(u64::from(c.to_digit(16).expect("hex"))));
        }
        r
    }

    /// Minimal lower case hex, "0" for zero.
    pub fn to_hex(&self) -> String {
        if self.is_zero() {
            return "0".to_string();
        }
        let mut s = String::new();
        for i in (0..(self.bits() + 3) / 4).rev() {
            let d = (self.0[i / 8] >> (4 * (i % 8))) & 0xf;
            s.push(std::char::from_digit(d, 16).unwrap());
        }
        s
    }
}

/// Arithmetic mod a fixed odd prime, on `Nat`s already reduced.
#[derive(Clone)]
pub struct Mod {
    pub p: Nat,
}

impl Mod {
    pub fn new(p: Nat) -> Self {
        Mod { p }
    }

    pub fn red(&self, a: &Nat) -> Nat {
        a.rem(&self.p)
    }

    pub fn add(&self, a: &Nat, b: &Nat) -> Nat {
        let s = a.add(b);
        if s >= self.p {
            s.sub(&self.p)
        } else {
            s
        }
    }

    pub fn sub(&self, a: &Nat, b: &Nat) -> Nat {
        if a >= b {
            a.sub(b)
        } else {
            a.add(&self.p).sub(b)
        }
    }

    pub fn neg(&self, a: &Nat) -> Nat {
        if a.is_zero() {
            Nat::zero()
        } else {
            self.p.sub(a)
        }
    }

    pub fn mul(&self, a: &Nat, b: &Nat) -> Nat {
        a.mul(b).rem(&self.p)
    }

    pub fn inv(&self, a: &Nat) -> Option<Nat> {
        a.inv_mod(&self.p)
    }

    pub fn pow(&self, a: &Nat, e: &Nat) -> Nat {
        a.pow_mod(e, &self.p)
    }
}
