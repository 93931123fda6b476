//! Words operations of the interpreter on generated operands, for a comparison
//! with Python's integers.
use sol::W;
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn word(&mut self) -> W {
        let k = self.next() % 8;
        let mut l = [self.next(), self.next(), self.next(), self.next()];
        match k {
            0 => l = [l[0] % 4, 0, 0, 0],
            1 => l = [l[0] % 300, 0, 0, 0],
            2 => l = [l[0], 0, 0, 0],
            3 => l = [u64::MAX - l[0] % 3, u64::MAX, u64::MAX, u64::MAX],
            4 => l[(l[0] % 4) as usize] = 0,
            5 => l[(l[0] % 4) as usize] = u64::MAX,
            6 => l = [0, 0, 0, 1 << 63],
            _ => {}
        }
        W(l)
    }
}
fn main() {
    let mut r = Rng(7);
    for _ in 0..4000 {
        let (a, b, m) = (r.word(), r.word(), r.word());
        let (q, rem) = if b.is_zero() { (W::ZERO, W::ZERO) } else { a.divmod(b) };
        let (sq, sr) = if b.is_zero() { (W::ZERO, W::ZERO) } else { a.sdivmod(b) };
        let (am, mm, pm) = if m.is_zero() { (W::ZERO, W::ZERO, W::ZERO) } else { (a.addmod(b, m), a.mulmod(b, m), a.powmod(b, m)) };
        println!(
            "{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {} {}",
            a, b, m, a.add(b), a.sub(b), a.mul(b), q, rem, sq, sr, am, mm, pm, a.pow(b), a.shl(b), a.shr(b), a.sar(b),
            a.slt(b), a < b
        );
    }
}
