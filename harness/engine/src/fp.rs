//! Independent 256 bit prime field arithmetic for the oracles (CIOS
//! Montgomery multiplication), checked against `Nat` in `examples/natdump.rs`.
use crate::nat::Nat;
use std::marker::PhantomData;

pub trait Prime: Copy + Clone + Eq + 'static + Send + Sync + std::fmt::Debug {
    /// Below 2^255
    const P: [u64; 4];
    const N0: u64;
    const R: [u64; 4];
    const R2: [u64; 4];
}

const fn neg_inv64(p: u64) -> u64 {
    let mut x = 1_u64;
    let mut i = 0;
    while i < 6 {
        x = x.wrapping_mul(2_u64.wrapping_sub(p.wrapping_mul(x)));
        i += 1;
    }
    x.wrapping_neg()
}

const fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    let mut i = 4;
    while i > 0 {
        i -= 1;
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}

const fn sub4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0; 4];
    let mut borrow = 0_u64;
    let mut i = 0;
    while i < 4 {
        let t = (a[i] as u128).wrapping_sub(b[i] as u128 + borrow as u128);
        r[i] = t as u64;
        borrow = ((t >> 64) as u64) & 1;
        i += 1;
    }
    r
}

const fn add4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0; 4];
    let mut c = 0_u128;
    let mut i = 0;
    while i < 4 {
        let t = a[i] as u128 + b[i] as u128 + c;
        r[i] = t as u64;
        c = t >> 64;
        i += 1;
    }
    r
}

const fn double_n(p: &[u64; 4], n: usize) -> [u64; 4] {
    let mut r = [1, 0, 0, 0];
    let mut i = 0;
    while i < n {
        r = add4(&r, &r);
        if geq(&r, p) {
            r = sub4(&r, p);
        }
        i += 1;
    }
    r
}

macro_rules! prime {
    ($name:ident, $p:expr) => {
        #[derive(Copy, Clone, PartialEq, Eq, Debug)]
        pub struct $name;
        impl Prime for $name {
            const P: [u64; 4] = $p;
            const N0: u64 = neg_inv64($p[0]);
            const R: [u64; 4] = double_n(&$p, 256);
            const R2: [u64; 4] = double_n(&$p, 512);
        }
    };
}

// 2^251 + 17 * 2^192 + 1
prime!(StarkP, [1, 0, 0, 0x0800_0000_0000_0011]);
// order of the curve
prime!(CurveN, [0x1e66_a241_adc6_4d2f, 0xb781_126d_cae7_b232, 0xffff_ffff_ffff_ffff, 0x0800_0000_0000_0010]);

#[derive(Copy, Clone, PartialEq, Eq)]
pub struct Fe<P: Prime>(pub [u64; 4], PhantomData<P>);

pub type Fp = Fe<StarkP>;
pub type Fn = Fe<CurveN>;

impl<P: Prime> std::fmt::Debug for Fe<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.to_nat().to_hex())
    }
}

impl<P: Prime> Fe<P> {
    pub fn from_mont(l: [u64; 4]) -> Self {
        assert!(!geq(&l, &P::P));
        Fe(l, PhantomData)
    }

    pub fn mont(&self) -> [u64; 4] {
        self.0
    }

    pub fn modulus() -> Nat {
        Nat::from_limbs(&P::P)
    }

    pub fn zero() -> Self {
        Fe([0; 4], PhantomData)
    }

    pub fn one() -> Self {
        Fe(P::R, PhantomData)
    }

    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }

    /// Any number, reduced.
    pub fn from_nat(n: &Nat) -> Self {
        let n = if n.bits() > 251 { n.rem(&Self::modulus()) } else { n.clone() };
        Self::from_limbs(n.limbs4())
    }

    /// Reduced number
    pub fn from_limbs(l: [u64; 4]) -> Self {
        assert!(!geq(&l, &P::P));
        Fe(Self::redc_mul(&l, &P::R2), PhantomData)
    }

    pub fn from_u64(n: u64) -> Self {
        Self::from_limbs([n, 0, 0, 0])
    }

    pub fn limbs(&self) -> [u64; 4] {
        Self::redc_mul(&self.0, &[1, 0, 0, 0])
    }

    pub fn to_nat(&self) -> Nat {
        Nat::from_limbs(&self.limbs())
    }

    fn redc_mul(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
        let p = &P::P;
        let mut t = [0_u64; 6];
        for i in 0..4 {
            let mut c = 0_u128;
            for j in 0..4 {
                let v = t[j] as u128 + (a[j] as u128) * (b[i] as u128) + c;
                t[j] = v as u64;
                c = v >> 64;
            }
            let v = t[4] as u128 + c;
            t[4] = v as u64;
            t[5] = (v >> 64) as u64;
            let m = t[0].wrapping_mul(P::N0);
            let mut c = (t[0] as u128 + (m as u128) * (p[0] as u128)) >> 64;
            for j in 1..4 {
                let v = t[j] as u128 + (m as u128) * (p[j] as u128) + c;
                t[j - 1] = v as u64;
                c = v >> 64;
            }
            let v = t[4] as u128 + c;
            t[3] = v as u64;
            t[4] = t[5] + (v >> 64) as u64;
        }
        let r = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || geq(&r, p) {
            sub4(&r, p)
        } else {
            r
        }
    }

    pub fn neg(&self) -> Self {
        if self.is_zero() {
            *self
        } else {
            Fe(sub4(&P::P, &self.0), PhantomData)
        }
    }

    pub fn square(&self) -> Self {
        *self * *self
    }

    pub fn pow_nat(&self, e: &Nat) -> Self {
        let mut r = Self::one();
        for i in (0..e.bits()).rev() {
            r = r.square();
            if e.bit(i) {
                r = r * *self;
            }
        }
        r
    }

    pub fn pow(&self, e: u64) -> Self {
        let mut r = Self::one();
        for i in (0..64 - e.leading_zeros()).rev() {
            r = r.square();
            if (e >> i) & 1 == 1 {
                r = r * *self;
            }
        }
        r
    }

    /// Inverse, zero for zero.
    pub fn inv(&self) -> Self {
        let mut e = P::P;
        crate::gen::sub_small(&mut e, 2);
        self.pow_nat(&Nat::from_limbs(&e))
    }
}

impl<P: Prime> std::ops::Add for Fe<P> {
    type Output = Self;

    fn add(self, o: Self) -> Self {
        let r = add4(&self.0, &o.0);
        Fe(if geq(&r, &P::P) { sub4(&r, &P::P) } else { r }, PhantomData)
    }
}

impl<P: Prime> std::ops::Sub for Fe<P> {
    type Output = Self;

    fn sub(self, o: Self) -> Self {
        if geq(&self.0, &o.0) {
            Fe(sub4(&self.0, &o.0), PhantomData)
        } else {
            Fe(sub4(&add4(&self.0, &P::P), &o.0), PhantomData)
        }
    }
}

impl<P: Prime> std::ops::Mul for Fe<P> {
    type Output = Self;

    fn mul(self, o: Self) -> Self {
        Fe(Self::redc_mul(&self.0, &o.0), PhantomData)
    }
}
