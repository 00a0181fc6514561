//! The only source of randomness of a simulated run.
//!
//! Every decision of the scheduler, of the fault injector and of the workload
//! is drawn from a `Tape`. A fresh run draws from a seeded generator and
//! records the decisions; a replay feeds the recorded decisions back. Value 0
//! is always the simplest decision (no fault, default schedule, smallest
//! document), so that minimising a failure is minimising its tape.

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed ^ 0x5DEE_CE66_D1CE_4E5B;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut s)
}

pub struct Tape {
    rng: Rng,
    replay: Option<Vec<u32>>,
    pub rec: Vec<u32>,
    log: Option<std::fs::File>,
}

impl Tape {
    pub fn fresh(seed: u64) -> Tape {
        Tape { rng: Rng::new(seed), replay: None, rec: Vec::with_capacity(256), log: None }
    }
    pub fn replay(v: &[u32]) -> Tape {
        Tape { rng: Rng::new(0), replay: Some(v.to_vec()), rec: Vec::with_capacity(v.len()), log: None }
    }
    /// Writes every decision to a file as it is made (for runs that kill their process).
    pub fn log_to(&mut self, f: &str) {
        self.log = std::fs::File::create(f).ok();
    }
    fn put(&mut self, v: u32) {
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        self.rec.push(v);
    }
    /// One decision among `n` alternatives, all equally likely.
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0) % n,
            None => (self.rng.next() >> 33) as u32 % n,
        };
        self.put(v);
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u32) as usize
    }
    /// One decision among weighted alternatives; alternative 0 is the simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.rec.len()).copied().unwrap_or(0) as usize % w.len();
                if w[v] == 0 { w.iter().position(|x| *x > 0).unwrap_or(0) } else { v }
            }
            None => {
                let total: u32 = w.iter().sum();
                let mut x = (self.rng.next() >> 33) as u32 % total.max(1);
                let mut i = 0;
                while i + 1 < w.len() && x >= w[i] {
                    x -= w[i];
                    i += 1;
                }
                i
            }
        };
        self.put(v as u32);
        v
    }
    /// True with probability `permille`/1000; false is the simplest.
    pub fn chance(&mut self, permille: u32) -> bool {
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0) % 2,
            None => u32::from(((self.rng.next() >> 33) as u32 % 1000) < permille),
        };
        let v = if permille == 0 { 0 } else { v };
        self.put(v);
        v == 1
    }
    /// Small count: 0 most likely, at most `max`.
    pub fn small(&mut self, max: u32, permille_more: u32) -> usize {
        let mut n = 0;
        while n < max && self.chance(permille_more) {
            n += 1;
        }
        n as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    pub fn seed32(&mut self) -> u32 {
        self.below(u32::MAX)
    }
}
