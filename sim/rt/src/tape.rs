//! Choice tapes: every random decision of a run, in the order it was taken.
//!
//! Choice 0 is by convention the simplest one (no fault, no preemption,
//! smallest workload), so zeroing and truncating tapes simplifies a run.

pub const WORK: usize = 0;
pub const SCHED: usize = 1;
pub const FAULT: usize = 2;
pub const HASH: usize = 3;
pub const STREAMS: usize = 4;
pub const NAMES: [&str; STREAMS] = ["WORK", "SCHED", "FAULT", "HASH"];

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut x);
    splitmix(&mut x)
}

#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub struct Tapes(pub [Vec<u64>; STREAMS]);

pub struct Source {
    prng: Option<[u64; STREAMS]>,
    pub tapes: Tapes,
    pos: [usize; STREAMS],
}

impl Source {
    /// Fresh random run.
    pub fn seeded(seed: u64) -> Self {
        let mut s = [0; STREAMS];
        for (i, x) in s.iter_mut().enumerate() {
            *x = mix(seed, i as u64 + 1);
        }
        Source { prng: Some(s), tapes: Tapes::default(), pos: [0; STREAMS] }
    }

    /// Replay; past the end every choice is 0.
    pub fn replay(tapes: Tapes) -> Self {
        Source { prng: None, tapes, pos: [0; STREAMS] }
    }

    /// `n == 0` means a full 64-bit value.
    pub fn draw(&mut self, s: usize, n: u64) -> u64 {
        match &mut self.prng {
            Some(p) => {
                let r = splitmix(&mut p[s]);
                let v = if n == 0 { r } else { ((r as u128 * n as u128) >> 64) as u64 };
                self.tapes.0[s].push(v);
                v
            }
            None => {
                let i = self.pos[s];
                self.pos[s] += 1;
                let v = self.tapes.0[s].get(i).copied().unwrap_or(0);
                if n == 0 { v } else { v.min(n.saturating_sub(1)) }
            }
        }
    }

    /// Tapes cut to what was consumed, trailing zeros dropped.
    pub fn consumed(&self) -> Tapes {
        let mut t = self.tapes.clone();
        for s in 0..STREAMS {
            if self.prng.is_none() {
                t.0[s].truncate(self.pos[s]);
            }
            while t.0[s].last() == Some(&0) {
                t.0[s].pop();
            }
        }
        t
    }
}
