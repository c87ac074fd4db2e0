//! The one source of choices of a run: a seeded generator whose draws are
//! recorded, or a recorded list that is replayed.

pub struct Rng(u64, u64);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        let a = splitmix(&mut x);
        let b = splitmix(&mut x) | 1;
        Rng(a, b)
    }
    /// xoroshiro128+
    pub fn next(&mut self) -> u64 {
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        // scramble the weak low bits
        let mut z = r ^ (r >> 32);
        z = z.wrapping_mul(0xd6e8_feb8_6659_fd93);
        z ^ (z >> 32)
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
}

/// Seed of one run of one scenario.
pub fn run_seed(seed: u64, prop: &str, run: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    let mut x = seed ^ h.rotate_left(17);
    let a = splitmix(&mut x);
    let mut y = a ^ run.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    splitmix(&mut y)
}

pub enum Source {
    Random(Rng),
    Replay(Vec<u64>, usize),
}

pub struct Choices {
    src: Source,
    pub rec: Vec<u64>,
    /// Receives every draw as it is made, for runs that end the process.
    pub tee: Option<std::fs::File>,
}

impl Choices {
    pub fn random(seed: u64) -> Choices {
        Choices {
            src: Source::Random(Rng::new(seed)),
            rec: Vec::new(),
            tee: None,
        }
    }
    pub fn replay(v: Vec<u64>) -> Choices {
        Choices {
            src: Source::Replay(v, 0),
            rec: Vec::new(),
            tee: None,
        }
    }
    /// A choice in 0..n; n == 0 stands for the whole range of u64.
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match &mut self.src {
            Source::Random(r) => {
                let x = r.next();
                if n == 0 {
                    x
                } else {
                    ((x as u128 * n as u128) >> 64) as u64
                }
            }
            Source::Replay(v, i) => {
                let x = v.get(*i).copied().unwrap_or(0);
                *i += 1;
                if n == 0 {
                    x
                } else {
                    x % n
                }
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.tee {
            let _ = std::io::Write::write_all(f, &v.to_le_bytes());
        }
        v
    }
}
