//! The only source of randomness of the simulator (xoshiro256**).

/// Seeded PRNG. One `u64` decides a whole run.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

/// SplitMix64 step, also used as an integer hash.
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// Combines a hash with a value.
pub fn comb(h: u64, v: u64) -> u64 {
    mix(h ^ v.wrapping_mul(0xff51_afd7_ed55_8ccd).rotate_left(23))
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0; 4];
        for e in &mut s {
            x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
            *e = mix(x);
        }
        Self { s }
    }

    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// Uniform in `0..n` (`n > 0`).
    pub fn below(&mut self, n: u32) -> u32 {
        (((self.next() >> 32) * u64::from(n)) >> 32) as u32
    }

    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }

    /// True with probability `pct`/100.
    pub fn pct(&mut self, pct: u32) -> bool {
        self.below(100) < pct
    }

    /// A selector value: small numbers are more likely than large ones.
    pub fn sel(&mut self) -> u32 {
        if self.pct(50) {
            self.below(8)
        } else {
            self.below(1 << 16)
        }
    }
}
