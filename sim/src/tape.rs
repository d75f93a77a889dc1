//! The choice tape: every decision of a run is one entry. Generated from a
//! PRNG, or read back from a replay file.

#[derive(Clone)]
pub struct Prng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0xD6E8FEB86659FD93).rotate_left(32);
    splitmix(&mut x)
}

impl Prng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Prng { s: std::array::from_fn(|_| splitmix(&mut x)) }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

pub enum Mode {
    Gen(Prng),
    Replay(Vec<u64>),
}

pub struct Tape {
    mode: Mode,
    pub log: Vec<u64>,
}

impl Tape {
    pub fn gen(seed: u64) -> Self {
        Tape { mode: Mode::Gen(Prng::new(seed)), log: Vec::new() }
    }
    pub fn replay(v: Vec<u64>) -> Self {
        Tape { mode: Mode::Replay(v), log: Vec::new() }
    }
    /// A value in `0..n`; `0` is the simplest choice by convention.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let pos = self.log.len();
        let v = match &mut self.mode {
            Mode::Gen(p) => {
                if n == u64::MAX {
                    p.next() % n
                } else {
                    p.below(n)
                }
            }
            Mode::Replay(v) => v.get(pos).copied().unwrap_or(0) % n,
        };
        self.log.push(v);
        v
    }
}
