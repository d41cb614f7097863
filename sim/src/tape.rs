//! The single source of nondeterminism: every choice of a run (values, schedule, faults) is one draw from a tape.
//!
//! In search mode the tape is produced by a seeded generator and recorded; in replay mode it is read back. Draws past
//! the end of a replayed tape yield 0, which every generator treats as its simplest choice. A run is a pure function of
//! its tape, so a tape is an exact replay file, and shrinking a tape shrinks the run.

use std::io::Write;

pub struct Tape {
    state: [u64; 4],
    replay: Option<Vec<u64>>,
    pub rec: Vec<u64>,
    pos: usize,
    sink: Option<std::fs::File>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Tape {
    pub fn seeded(seed: u64) -> Self {
        let mut s = seed;
        let state = [splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)];
        Tape { state, replay: None, rec: Vec::new(), pos: 0, sink: None }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        let mut t = Self::seeded(0);
        t.replay = Some(tape);
        t
    }
    /// Writes each draw through to a file, so that it survives an abort of this process.
    pub fn log_to(&mut self, f: std::fs::File) {
        self.sink = Some(f);
    }
    fn next(&mut self) -> u64 {
        let s = &mut self.state;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// A number in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = if self.replay.is_some() {
            let r = self.replay.as_ref().unwrap();
            let v = r.get(self.pos).copied().unwrap_or(0);
            if v < n { v } else { v % n }
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(f) = &mut self.sink {
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// `lo..=hi`
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability `num/den`; 0 on the tape means false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    /// A small count, geometrically distributed, at most `max`.
    pub fn count(&mut self, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.below(8) >= 4 {
            n += 1;
        }
        n
    }
    pub fn u32(&mut self) -> u32 {
        match self.below(8) {
            0 => self.below(3) as u32,
            1 => self.below(12) as u32,
            2 => self.below(300) as u32,
            3 => 1u32 << self.below(32),
            4 => (1u32 << self.below(32)).wrapping_sub(1),
            5 => u32::MAX - self.below(3) as u32,
            6 => 10u32.pow(self.below(10) as u32),
            _ => self.below(1 << 32) as u32,
        }
    }
    pub fn u64(&mut self) -> u64 {
        match self.below(7) {
            0 => self.below(3),
            1 => self.below(300),
            2 => 1u64 << self.below(64),
            3 => (1u64 << self.below(64)).wrapping_sub(1),
            4 => u64::MAX - self.below(3),
            5 => u32::MAX as u64 + self.below(3),
            _ => (self.below(1 << 32) << 32) | self.below(1 << 32),
        }
    }
}

/// FNV-1a style mixing, stable across processes (std's hasher is not what we want here).
#[derive(Clone, Copy)]
pub struct Mix(pub u64);
impl Mix {
    pub fn new() -> Self {
        Mix(0xcbf29ce484222325)
    }
    pub fn u(&mut self, x: u64) -> &mut Self {
        let mut z = self.0 ^ x.wrapping_mul(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 32)).wrapping_mul(0xD6E8FEB86659FD93);
        self.0 = z ^ (z >> 29);
        self
    }
    pub fn b(&mut self, bytes: &[u8]) -> &mut Self {
        self.u(bytes.len() as u64);
        for c in bytes.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.u(u64::from_le_bytes(w));
        }
        self
    }
}
