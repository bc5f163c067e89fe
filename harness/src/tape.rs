//! The source of every random choice: a recorded tape of integers.
//!
//! A tape made from a seed draws fresh numbers and records them; a tape made
//! from recorded numbers replays them (zeros once they run out).  By
//! convention zero is always the simplest choice, so that deleting and
//! zeroing parts of the tape shrinks the generated case.

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x5851_f42d_4c95_7f2d)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x1_0000_01b3) ^ b);
    r.next();
    r.next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x1_0000_0001_b3);
    }
    h
}

pub struct Tape {
    pub used: Vec<u64>,
    data: Vec<u64>,
    rng: Option<Rng>,
}

impl Tape {
    pub fn random(seed: u64) -> Tape {
        Tape { used: vec![], data: vec![], rng: Some(Rng::new(seed)) }
    }

    /// Recorded numbers, or u64::MAX and a seed
    pub fn replay(data: Vec<u64>) -> Tape {
        if data.len() == 2 && data[0] == u64::MAX {
            return Tape::random(data[1]);
        }
        Tape { used: vec![], data, rng: None }
    }

    /// A number in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match (self.data.get(self.used.len()), &mut self.rng) {
            (Some(v), _) => *v % n,
            (None, Some(r)) => r.next() % n,
            (None, None) => 0,
        };
        self.used.push(v);
        v
    }

    pub fn size(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// A number in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.size(hi - lo + 1)
    }

    /// True num times out of den; false is the simple case.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, from: &'a [T]) -> &'a T {
        let i = self.size(from.len());
        &from[i]
    }

    /// Index into weights
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        weights.len() - 1
    }

    /// A count, each further one with the chance given, up to max
    pub fn count(&mut self, num: u64, den: u64, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.chance(num, den) {
            n += 1;
        }
        n
    }

    /// A seed for choices that are not worth shrinking
    pub fn seed(&mut self) -> u64 {
        self.below(1 << 48)
    }
}

/// Shrink candidates, most aggressive first.
pub fn candidates(tape: &[u64], round: u64) -> Vec<Vec<u64>> {
    let mut out: Vec<Vec<u64>> = vec![];
    let n = tape.len();
    if n == 0 {
        return out;
    }
    let mut k = n / 2;
    while k >= 1 {
        let mut start = 0;
        while start < n {
            let mut t = tape.to_vec();
            t.drain(start..(start + k).min(n));
            out.push(t);
            start += k;
        }
        k /= 2;
    }
    let mut k = 8usize.min(n);
    while k >= 1 {
        let mut start = 0;
        while start < n {
            let end = (start + k).min(n);
            if tape[start..end].iter().any(|v| *v != 0) {
                let mut t = tape.to_vec();
                for v in &mut t[start..end] {
                    *v = 0;
                }
                out.push(t);
            }
            start += k;
        }
        k /= 2;
    }
    for i in 0..n {
        if tape[i] > 1 {
            let mut t = tape.to_vec();
            t[i] /= 2;
            out.push(t);
            let mut t = tape.to_vec();
            t[i] -= 1;
            out.push(t);
        }
    }
    let _ = round;
    out
}
