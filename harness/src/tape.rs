//! Choice tapes: every random choice of a generator is read from a tape of numbers, so a case is a pure function
//! of its tape, shrinking works on the tape, and coverage guidance mutates tapes. Reading past the end yields 0,
//! and 0 is always the simplest choice.

pub struct Src<'a> {
    t: &'a [u16],
    i: usize,
}

impl<'a> Src<'a> {
    pub fn new(t: &'a [u16]) -> Self {
        Src { t, i: 0 }
    }
    pub fn more(&self) -> bool {
        self.i < self.t.len()
    }
    pub fn raw(&mut self) -> u16 {
        let v = self.t.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        v
    }
    /// A number below `n`.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        (self.raw() as usize * n) >> 16
    }
    /// True with probability `num`/`den`; false on an exhausted tape.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        // high numbers mean true, so zeroing a choice simplifies
        self.below(den) >= den - num
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len())]
    }
    /// Index into a weight table.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.below(total as usize) as u32;
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
}

/// xoshiro256** seeded with splitmix64: fills tapes, nothing else.
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut next = || {
            x = x.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        };
        Rng([next(), next(), next(), next()])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 32) as usize * n) >> 32
    }
    pub fn tape(&mut self) -> Vec<u16> {
        let n = match self.below(20) {
            0..=5 => 4 + self.below(20),
            6..=12 => 10 + self.below(50),
            13..=17 => 30 + self.below(120),
            18 => 100 + self.below(200),
            _ => 200 + self.below(400),
        };
        (0..n).map(|_| self.next() as u16).collect()
    }
    pub fn mutate(&mut self, base: &[u16], other: &[u16]) -> Vec<u16> {
        let mut t = base.to_vec();
        for _ in 0..1 + self.below(4) {
            if t.is_empty() {
                t.push(self.next() as u16);
                continue;
            }
            let i = self.below(t.len());
            match self.below(8) {
                0 | 1 => t[i] = self.next() as u16,
                2 => {
                    let n = 1 + self.below(6.min(t.len() - i));
                    t.drain(i..i + n);
                }
                3 => {
                    for _ in 0..1 + self.below(5) {
                        t.insert(i, self.next() as u16);
                    }
                }
                4 => {
                    // duplicate a range elsewhere
                    let n = 1 + self.below(12.min(t.len() - i));
                    let seg: Vec<u16> = t[i..i + n].to_vec();
                    let at = self.below(t.len() + 1);
                    t.splice(at..at, seg);
                }
                5 => {
                    // take a range of another tape
                    if !other.is_empty() {
                        let j = self.below(other.len());
                        let n = 1 + self.below(30.min(other.len() - j));
                        let m = self.below(30.min(t.len() - i) + 1);
                        t.splice(i..i + m, other[j..j + n].iter().copied());
                    }
                }
                6 => {
                    t[i] = t[i].wrapping_add((self.below(4097) as u16).wrapping_sub(2048));
                }
                _ => t.truncate(i.max(2)),
            }
        }
        t.truncate(1500);
        t
    }
}
