//! xoshiro256** seeded through splitmix64: every random choice of a check comes
//! from VERIF_SEED, the property name and the case number.
use blstrs::Scalar;
use ff::Field;

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash64(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut x = h;
    splitmix(&mut x)
}

impl Rng {
    pub fn new(seed: u64, stream: &str, case: u64) -> Rng {
        let mut x = seed ^ hash64(stream.as_bytes()) ^ case.wrapping_mul(0xD1342543DE82EF95);
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            *v = splitmix(&mut x);
        }
        Rng(s)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// Uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let x = self.u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// k distinct values out of 0..n, in random order
    pub fn subset(&mut self, n: usize, k: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        self.shuffle(&mut v);
        v.truncate(k);
        v
    }
    pub fn scalar(&mut self) -> Scalar {
        loop {
            let mut b = [0u8; 32];
            self.fill(&mut b);
            b[0] &= 0x7f;
            let s: Option<Scalar> = Scalar::from_bytes_be(&b).into();
            if let Some(s) = s {
                return s;
            }
        }
    }
    pub fn nonzero(&mut self) -> Scalar {
        loop {
            let s = self.scalar();
            if !bool::from(s.is_zero()) {
                return s;
            }
        }
    }
    /// Scalars at the places arithmetic code goes wrong.
    pub fn edge_scalar(&mut self) -> Scalar {
        let two = Scalar::from(2u64);
        match self.below(14) {
            0 => Scalar::ZERO,
            1 => Scalar::ONE,
            2 => -Scalar::ONE,
            3 => -two,
            4 => two.pow_vartime([self.below(255) as u64]),
            5 => two.pow_vartime([self.below(255) as u64]) - Scalar::ONE,
            6 => two.pow_vartime([self.below(255) as u64]) + Scalar::ONE,
            7 => -two.pow_vartime([self.below(255) as u64]),
            8 => Scalar::from(self.below(256) as u64),
            9 => -Scalar::from(self.below(256) as u64),
            10 => (-Scalar::ONE) * two.invert().unwrap(),
            // the same w-bit digit in every window (booth/window boundaries)
            11 => {
                let w = self.range(1, 16);
                let top = 1usize << (w - 1);
                let d = match self.below(6) {
                    0 => top,
                    1 => top - 1,
                    2 => (top + 1) & ((1 << w) - 1),
                    3 => (1 << w) - 1,
                    4 => 1,
                    _ => self.below(1 << w),
                };
                let base = two.pow_vartime([w as u64]);
                let mut s = Scalar::ZERO;
                for _ in 0..(254 / w) {
                    s = s * base + Scalar::from(d as u64);
                }
                s
            }
            // random with a run of zero or one bits
            12 => {
                let mut b = self.scalar().to_bytes_le();
                let a = self.below(31);
                let e = self.range(a, 30);
                let v = if self.chance(1, 2) { 0 } else { 0xff };
                for x in &mut b[a..=e] {
                    *x = v;
                }
                let o: Option<Scalar> = Scalar::from_bytes_le(&b).into();
                o.unwrap_or(Scalar::ONE)
            }
            _ => self.scalar(),
        }
    }
    pub fn any_scalar(&mut self) -> Scalar {
        if self.chance(1, 2) {
            self.edge_scalar()
        } else {
            self.scalar()
        }
    }
}
