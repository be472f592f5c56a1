//! Choice sequence. Every random decision of a case is one recorded number, so that a case can be
//! rebuilt from its numbers and shrunk by editing them. Past the end of a replayed sequence every
//! choice is 0, which by convention is the simplest alternative.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93)).next()
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub struct Src {
    replay: Option<Vec<u64>>,
    pos: usize,
    rng: Rng,
    pub rec: Vec<u64>,
    tee: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { replay: None, pos: 0, rng: Rng::new(seed), rec: Vec::new(), tee: None }
    }

    pub fn replay(choices: &[u64]) -> Self {
        Src { replay: Some(choices.to_vec()), pos: 0, rng: Rng::new(0), rec: Vec::new(), tee: None }
    }

    /// Also writes every choice to a file as it is made.
    pub fn tee(&mut self, path: &str) {
        self.tee = std::fs::File::create(path).ok();
    }

    fn push(&mut self, v: u64) {
        self.rec.push(v);
        if let Some(f) = &mut self.tee {
            use std::io::Write;
            let _ = writeln!(f, "{v}");
        }
    }

    /// A number below `n` (`n` = 0 stands for the full 64 bit range).
    pub fn below(&mut self, n: u64) -> u64 {
        let raw = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0),
            None => self.rng.next(),
        };
        self.pos += 1;
        let v = if n == 0 { raw } else { raw % n };
        self.push(v);
        v
    }

    pub fn bits(&mut self) -> u64 {
        self.below(0)
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }

    /// True in `num` of `den` cases; false is the simple alternative.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.weighted(&[den - num, num]) == 1
    }

    /// Index chosen with the given weights; index 0 is the simple alternative.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|w| *w as u64).sum();
        // The recorded number is the index, so that it can be lowered by the shrinker.
        match &self.replay {
            Some(r) => {
                let raw = r.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                let v = raw % weights.len() as u64;
                self.push(v);
                v as usize
            }
            None => {
                let mut x = self.rng.next() % total;
                self.pos += 1;
                for (i, w) in weights.iter().enumerate() {
                    if x < *w as u64 {
                        self.push(i as u64);
                        return i;
                    }
                    x -= *w as u64;
                }
                unreachable!()
            }
        }
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.idx(items.len())]
    }
}
