//! 256-bit words with the arithmetic of the EVM.
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct W(pub [u64; 4]);

impl fmt::Debug for W {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{:016x}{:016x}{:016x}{:016x}", self.0[3], self.0[2], self.0[1], self.0[0])
    }
}

impl PartialOrd for W {
    fn partial_cmp(&self, o: &W) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

impl Ord for W {
    fn cmp(&self, o: &W) -> Ordering {
        for i in (0..4).rev() {
            match self.0[i].cmp(&o.0[i]) {
                Ordering::Equal => {}
                r => return r,
            }
        }
        Ordering::Equal
    }
}

impl From<u64> for W {
    fn from(x: u64) -> W {
        W([x, 0, 0, 0])
    }
}

impl From<usize> for W {
    fn from(x: usize) -> W {
        W([x as u64, 0, 0, 0])
    }
}

impl From<bool> for W {
    fn from(x: bool) -> W {
        W([x as u64, 0, 0, 0])
    }
}

/// Quotient and remainder of little-endian limbs, divisor not zero
fn knuth(n: &[u64], d: &[u64]) -> ([u64; 8], [u64; 4]) {
    let mut q = [0u64; 8];
    let mut r = [0u64; 4];
    let dn = d.iter().rposition(|x| *x != 0).unwrap() + 1;
    let nn = n.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
    if nn < dn {
        r[..nn].copy_from_slice(&n[..nn]);
        return (q, r);
    }
    if dn == 1 {
        let mut rem = 0u128;
        for i in (0..nn).rev() {
            let cur = rem << 64 | n[i] as u128;
            q[i] = (cur / d[0] as u128) as u64;
            rem = cur % d[0] as u128;
        }
        r[0] = rem as u64;
        return (q, r);
    }
    let s = d[dn - 1].leading_zeros();
    let mut v = [0u64; 4];
    let mut u = [0u64; 9];
    for i in (0..dn).rev() {
        v[i] = d[i] << s;
        if s > 0 && i > 0 {
            v[i] |= d[i - 1] >> (64 - s);
        }
    }
    if s > 0 {
        u[nn] = n[nn - 1] >> (64 - s);
    }
    for i in (0..nn).rev() {
        u[i] = n[i] << s;
        if s > 0 && i > 0 {
            u[i] |= n[i - 1] >> (64 - s);
        }
    }
    for j in (0..=nn - dn).rev() {
        let top = (u[j + dn] as u128) << 64 | u[j + dn - 1] as u128;
        let mut qh = top / v[dn - 1] as u128;
        let mut rh = top % v[dn - 1] as u128;
        while qh >> 64 != 0 || (qh as u64 as u128) * v[dn - 2] as u128 > (rh << 64 | u[j + dn - 2] as u128) {
            qh -= 1;
            rh += v[dn - 1] as u128;
            if rh >> 64 != 0 {
                break;
            }
        }
        let mut borrow = 0i128;
        let mut carry = 0u128;
        for i in 0..dn {
            let p = qh * v[i] as u128 + carry;
            carry = p >> 64;
            let t = u[j + i] as i128 - borrow - (p as u64) as i128;
            u[j + i] = t as u64;
            borrow = if t < 0 { 1 } else { 0 };
        }
        let t = u[j + dn] as i128 - borrow - carry as i128;
        u[j + dn] = t as u64;
        if t < 0 {
            qh -= 1;
            let mut c = 0u128;
            for i in 0..dn {
                let x = u[j + i] as u128 + v[i] as u128 + c;
                u[j + i] = x as u64;
                c = x >> 64;
            }
            u[j + dn] = u[j + dn].wrapping_add(c as u64);
        }
        q[j] = qh as u64;
    }
    for i in 0..dn {
        r[i] = u[i] >> s;
        if s > 0 {
            r[i] |= u[i + 1] << (64 - s);
        }
    }
    (q, r)
}

impl W {
    pub const ZERO: W = W([0; 4]);
    pub const ONE: W = W([1, 0, 0, 0]);
    pub const MAX: W = W([!0; 4]);

    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }

    pub fn small(&self) -> Option<u64> {
        if self.0[1] | self.0[2] | self.0[3] == 0 {
            Some(self.0[0])
        } else {
            None
        }
    }

    pub fn bits(&self) -> u32 {
        for i in (0..4).rev() {
            if self.0[i] != 0 {
                return 64 * i as u32 + 64 - self.0[i].leading_zeros();
            }
        }
        0
    }

    pub fn bit(&self, i: u32) -> bool {
        i < 256 && self.0[i as usize / 64] >> (i % 64) & 1 == 1
    }

    pub fn oadd(self, o: W) -> (W, bool) {
        let mut r = [0; 4];
        let mut c = false;
        for i in 0..4 {
            let (a, x) = self.0[i].overflowing_add(o.0[i]);
            let (b, y) = a.overflowing_add(c as u64);
            r[i] = b;
            c = x | y;
        }
        (W(r), c)
    }

    pub fn add(self, o: W) -> W {
        self.oadd(o).0
    }

    pub fn sub(self, o: W) -> W {
        let mut r = [0; 4];
        let mut c = false;
        for i in 0..4 {
            let (a, x) = self.0[i].overflowing_sub(o.0[i]);
            let (b, y) = a.overflowing_sub(c as u64);
            r[i] = b;
            c = x | y;
        }
        W(r)
    }

    pub fn neg(self) -> W {
        W::ZERO.sub(self)
    }

    pub fn wide(self, o: W) -> [u64; 8] {
        let mut r = [0u64; 8];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                let t = self.0[i] as u128 * o.0[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + 4] = c as u64;
        }
        r
    }

    pub fn mul(self, o: W) -> W {
        let r = self.wide(o);
        W([r[0], r[1], r[2], r[3]])
    }

    pub fn divmod(self, o: W) -> (W, W) {
        if o.is_zero() {
            return (W::ZERO, W::ZERO);
        }
        if let (Some(a), Some(b)) = (self.small(), o.small()) {
            return ((a / b).into(), (a % b).into());
        }
        let (q, r) = knuth(&self.0, &o.0);
        (W([q[0], q[1], q[2], q[3]]), W(r))
    }

    pub fn addmod(self, o: W, m: W) -> W {
        if m.is_zero() {
            return W::ZERO;
        }
        let (s, c) = self.oadd(o);
        W(knuth(&[s.0[0], s.0[1], s.0[2], s.0[3], c as u64], &m.0).1)
    }

    pub fn mulmod(self, o: W, m: W) -> W {
        if m.is_zero() {
            return W::ZERO;
        }
        W(knuth(&self.wide(o), &m.0).1)
    }

    pub fn powmod(self, e: W, m: W) -> W {
        let mut r = W::ONE.divmod(m).1;
        for i in (0..e.bits()).rev() {
            r = r.mulmod(r, m);
            if e.bit(i) {
                r = r.mulmod(self, m);
            }
        }
        r
    }

    pub fn pow(self, e: W) -> W {
        let mut r = W::ONE;
        for i in (0..e.bits()).rev() {
            r = r.mul(r);
            if e.bit(i) {
                r = r.mul(self);
            }
        }
        r
    }

    pub fn shl(self, s: W) -> W {
        match s.small() {
            Some(s) if s < 256 => {
                let (k, b) = (s as usize / 64, s % 64);
                let mut r = [0; 4];
                for i in k..4 {
                    r[i] = self.0[i - k] << b;
                    if b > 0 && i > k {
                        r[i] |= self.0[i - k - 1] >> (64 - b);
                    }
                }
                W(r)
            }
            _ => W::ZERO,
        }
    }

    pub fn shr(self, s: W) -> W {
        match s.small() {
            Some(s) if s < 256 => {
                let (k, b) = (s as usize / 64, s % 64);
                let mut r = [0; 4];
                for i in 0..4 - k {
                    r[i] = self.0[i + k] >> b;
                    if b > 0 && i + k + 1 < 4 {
                        r[i] |= self.0[i + k + 1] << (64 - b);
                    }
                }
                W(r)
            }
            _ => W::ZERO,
        }
    }

    pub fn negative(&self) -> bool {
        self.0[3] >> 63 == 1
    }

    pub fn sar(self, s: W) -> W {
        if !self.negative() {
            return self.shr(s);
        }
        self.not().shr(s).not()
    }

    pub fn not(self) -> W {
        W([!self.0[0], !self.0[1], !self.0[2], !self.0[3]])
    }

    pub fn and(self, o: W) -> W {
        W([self.0[0] & o.0[0], self.0[1] & o.0[1], self.0[2] & o.0[2], self.0[3] & o.0[3]])
    }

    pub fn or(self, o: W) -> W {
        W([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]])
    }

    pub fn xor(self, o: W) -> W {
        W([self.0[0] ^ o.0[0], self.0[1] ^ o.0[1], self.0[2] ^ o.0[2], self.0[3] ^ o.0[3]])
    }

    /// Signed comparison
    pub fn slt(self, o: W) -> bool {
        match (self.negative(), o.negative()) {
            (true, false) => true,
            (false, true) => false,
            _ => self < o,
        }
    }

    pub fn sdivmod(self, o: W) -> (W, W) {
        let a = if self.negative() { self.neg() } else { self };
        let b = if o.negative() { o.neg() } else { o };
        let (q, r) = a.divmod(b);
        (
            if self.negative() != o.negative() { q.neg() } else { q },
            if self.negative() { r.neg() } else { r },
        )
    }

    /// The low bits
    pub fn low(self, bits: u32) -> W {
        if bits >= 256 {
            return self;
        }
        let s = W::from((256 - bits) as u64);
        self.shl(s).shr(s)
    }

    /// The high bits, in place
    pub fn high(self, bits: u32) -> W {
        if bits >= 256 {
            return self;
        }
        let s = W::from((256 - bits) as u64);
        self.shr(s).shl(s)
    }

    pub fn sext(self, bits: u32) -> W {
        if bits >= 256 {
            return self;
        }
        let s = W::from((256 - bits) as u64);
        self.shl(s).sar(s)
    }

    pub fn to_be(self) -> [u8; 32] {
        let mut r = [0; 32];
        for i in 0..4 {
            r[8 * i..8 * i + 8].copy_from_slice(&self.0[3 - i].to_be_bytes());
        }
        r
    }

    /// At most 32 bytes, as a number
    pub fn from_be(b: &[u8]) -> W {
        let mut f = [0; 32];
        f[32 - b.len()..].copy_from_slice(b);
        let mut r = [0; 4];
        for i in 0..4 {
            let mut w = [0; 8];
            w.copy_from_slice(&f[8 * (3 - i)..8 * (3 - i) + 8]);
            r[i] = u64::from_be_bytes(w);
        }
        W(r)
    }

    /// At most 32 bytes, left aligned
    pub fn left(b: &[u8]) -> W {
        let mut f = [0; 32];
        f[..b.len()].copy_from_slice(b);
        W::from_be(&f)
    }
}
