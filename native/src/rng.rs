//! Deterministic pseudo-random numbers: a case is identified by its seed.

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9abc_def1);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, one_in: usize) -> bool {
        self.below(one_in) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// a count near a power of two, up to about 300
    pub fn near(&mut self) -> usize {
        let n = 1usize << self.range(3, 8);
        if self.chance(3) { self.below(300) } else { n + self.below(5) - 2 }
    }
    /// a value of `bytes` bytes, boundary values preferred
    pub fn val(&mut self, bytes: usize) -> u64 {
        let mask = if bytes == 8 { u64::MAX } else { (1u64 << (8 * bytes)) - 1 };
        let edges: [u64; 24] = [
            0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0xff_ffff, 0x100_0000,
            0x7fff_ffff, 0x8000_0000, 0xffff_ff80, 0xffff_ffff, 0x1_0000_0000, 1 << 63, u64::MAX, 0x0102_0304_0506_0708,
        ];
        let v = match self.below(4) {
            0 => *self.pick(&edges),
            1 => {
                let s = self.below(64);
                self.next() >> s
            }
            2 => self.pick(&edges).wrapping_add(self.below(5) as u64).wrapping_sub(2),
            _ => self.next(),
        };
        v & mask
    }
}
