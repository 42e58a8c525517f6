//! Sources of choices: a seeded generator, or the bytes of a fuzzer input.

#[derive(Clone)]
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut next = || {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            mix(z)
        };
        Rng([next(), next(), next(), next()])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub enum Src<'a> {
    Rng(Rng),
    Bytes(&'a [u8], usize),
}

impl<'a> Src<'a> {
    pub fn seeded(seed: u64) -> Src<'static> {
        Src::Rng(Rng::new(seed))
    }
    pub fn exhausted(&self) -> bool {
        matches!(self, Src::Bytes(b, p) if *p >= b.len())
    }
    pub fn is_fuzz(&self) -> bool {
        matches!(self, Src::Bytes(..))
    }
    pub fn byte(&mut self) -> u8 {
        match self {
            Src::Rng(r) => (r.next() >> 24) as u8,
            Src::Bytes(b, p) => {
                // Past the end: fixed noise, so that no generator waits for a choice for ever.
                let v = b.get(*p).copied().unwrap_or_else(|| mix(*p as u64) as u8);
                *p += 1;
                v
            }
        }
    }
    pub fn u64(&mut self) -> u64 {
        match self {
            Src::Rng(r) => r.next(),
            Src::Bytes(..) => (0..8).fold(0, |a, _| a << 8 | self.byte() as u64),
        }
    }
    pub fn u32(&mut self) -> u32 {
        match self {
            Src::Rng(r) => (r.next() >> 16) as u32,
            Src::Bytes(..) => (0..4).fold(0, |a, _| a << 8 | self.byte() as u32),
        }
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        match self {
            Src::Rng(r) => ((r.next() >> 11) % n as u64) as usize,
            Src::Bytes(..) if n <= 256 => self.byte() as usize % n,
            Src::Bytes(..) => self.u32() as usize % n,
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T {
        &v[self.below(v.len())]
    }
}

/// FNV-1a, for keys of distinct-case sets.
pub fn hash(parts: &[&[u8]]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for p in parts {
        for &b in *p {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        h = (h ^ 0x1ff).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}
