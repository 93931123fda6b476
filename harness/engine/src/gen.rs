//! Choice-sequence generator.
//!
//! Every random decision of a case is one recorded `u64` choice. A case is
//! therefore a pure function of its choice sequence: replaying the sequence
//! replays the case, and shrinking the sequence shrinks the case (the way
//! Hypothesis does it). Choices past the end of a replayed sequence are 0.

use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng(u64, u64);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s);
        Rng(a | 1, b)
    }

    pub fn next(&mut self) -> u64 {
        // xoroshiro128+ style
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1).rotate_left(17).wrapping_add(s0);
        s1 ^= s0;
        self.0 = s0.rotate_left(49) ^ s1 ^ (s1 << 21);
        self.1 = s1.rotate_left(28);
        r
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9abc_def1_u64;
    for p in parts {
        h ^= *p;
        h = splitmix(&mut h);
    }
    h
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325_u64;
    for b in s.bytes() {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub enum Source {
    Random(Rng),
    Replay(Vec<u64>),
}

pub struct Gen {
    source:            Source,
    pos:               usize,
    pub record:        Vec<u64>,
    pub labels:        BTreeMap<&'static str, u64>,
    pub nontrivial:    bool,
    pub want_describe: bool,
    pub description:   Vec<String>,
    /// Number of generated sub-evaluations this case performed (default 1).
    pub evals:         u64,
}

impl Gen {
    pub fn random(seed: u64) -> Self {
        Self::from_source(Source::Random(Rng::new(seed)))
    }

    pub fn replay(choices: Vec<u64>) -> Self {
        Self::from_source(Source::Replay(choices))
    }

    fn from_source(source: Source) -> Self {
        Gen {
            source,
            pos: 0,
            record: Vec::new(),
            labels: BTreeMap::new(),
            nontrivial: false,
            want_describe: false,
            description: Vec::new(),
            evals: 1,
        }
    }

    fn raw(&mut self) -> u64 {
        let r = match &mut self.source {
            Source::Random(rng) => rng.next(),
            Source::Replay(v) => v.get(self.pos).copied().unwrap_or(0),
        };
        self.pos += 1;
        r
    }

    fn push(&mut self, v: u64) -> u64 {
        self.record.push(v);
        v
    }

    /// Any 64 bit value.
    pub fn u64(&mut self) -> u64 {
        let r = self.raw();
        self.push(r)
    }

    /// Value in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let r = self.raw() % n;
        self.push(r)
    }

    pub fn usize_in(&mut self, lo: usize, hi: usize) -> usize {
        assert!(lo <= hi);
        lo + self.below((hi - lo) as u64 + 1) as usize
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    /// True once in `n` draws.
    pub fn one_in(&mut self, n: u64) -> bool {
        // 0 is the "simple" outcome
        self.below(n) == n - 1
    }

    pub fn pick<'a, T>(&mut self, options: &'a [T]) -> &'a T {
        let i = self.below(options.len() as u64) as usize;
        &options[i]
    }

    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }

    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }

    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }

    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_describe {
            let s = f();
            self.description.push(s);
        }
    }

    // ---- number generators biased to the boundaries of limb arithmetic ----

    /// Boundary-biased limb.
    pub fn limb(&mut self) -> u64 {
        match self.below(12) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => 1 << 63,
            4 => (1 << 63) - 1,
            5 => u64::MAX - self.below(4),
            6 => {
                // single bit
                1_u64 << self.below(64)
            }
            7 => {
                // mask of low bits
                let k = self.below(64);
                (1_u64 << k).wrapping_sub(1)
            }
            8 => {
                // mask of high bits
                let k = self.below(64);
                !((1_u64 << k).wrapping_sub(1))
            }
            9 => self.below(16),
            _ => self.u64(),
        }
    }

    /// 256 bit number, little endian limbs; boundary biased.
    pub fn limbs4(&mut self) -> [u64; 4] {
        match self.below(8) {
            // small
            0 => [self.limb(), 0, 0, 0],
            // two limbs
            1 => [self.limb(), self.limb(), 0, 0],
            2 => [self.limb(), self.limb(), self.limb(), 0],
            3 | 4 => [self.limb(), self.limb(), self.limb(), self.limb()],
            5 => {
                // near a power of two: 2^k + d
                let k = self.below(256) as usize;
                let mut v = [0_u64; 4];
                v[k / 64] = 1 << (k % 64);
                let d = self.below(5);
                if d < 2 {
                    add_small(&mut v, d)
                } else {
                    sub_small(&mut v, d - 1)
                }
                v
            }
            6 => {
                // near the top
                let mut v = [u64::MAX; 4];
                let d = self.limb() & 0xff;
                sub_small(&mut v, d);
                v
            }
            _ => [self.u64(), self.u64(), self.u64(), self.u64()],
        }
    }

    /// 256 bit number of uniform bit length.
    pub fn limbs4_len(&mut self) -> [u64; 4] {
        let bits = self.below(257) as usize;
        let mut v = [self.u64(), self.u64(), self.u64(), self.u64()];
        for i in 0..4 {
            if bits <= 64 * i {
                v[i] = 0;
            } else if bits < 64 * (i + 1) {
                v[i] &= (1_u64 << (bits - 64 * i)) - 1;
            }
        }
        v
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.below(256) as u8).collect()
    }
}

pub fn add_small(v: &mut [u64; 4], d: u64) {
    let (r, mut c) = v[0].overflowing_add(d);
    v[0] = r;
    for limb in v.iter_mut().skip(1) {
        let (r, o) = limb.overflowing_add(c as u64);
        *limb = r;
        c = o;
    }
}

pub fn sub_small(v: &mut [u64; 4], d: u64) {
    let (r, mut c) = v[0].overflowing_sub(d);
    v[0] = r;
    for limb in v.iter_mut().skip(1) {
        let (r, o) = limb.overflowing_sub(c as u64);
        *limb = r;
        c = o;
    }
}
