//! The single source of nondeterminism of a simulated run.
//!
//! Every decision (workload, scheduling, delays, faults, hash seeds) is drawn from one of a few
//! named streams. In `Gen` mode the values come from a seeded PRNG and are recorded; in `Replay`
//! mode they come from a recording. Value 0 always means "the benign / smallest choice", which is
//! what a replay gets once its recording is exhausted: that is what makes recordings minimisable.

#[derive(Clone)]
pub struct Rng([u64; 4]);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let mut n = || {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        };
        Rng([n(), n(), n(), n()])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub const NS: usize = 5;
/// workload: schema, pages, values, options, call sequences
pub const PLAN: usize = 0;
/// transfer sizes, readiness and latency of the simulated devices
pub const IO: usize = 1;
/// which task runs next, spurious polls, cancellation points
pub const SCHED: usize = 2;
/// injected faults: kind, position, damaged bytes, crash point
pub const FAULT: usize = 3;
/// bulk data: bytes and values of pages (kept apart so that minimising them is cheap)
pub const DATA: usize = 4;
pub const NAMES: [&str; NS] = ["plan", "io", "sched", "fault", "data"];

pub type Recording = [Vec<u64>; NS];

pub struct Choices {
    rng: Vec<Rng>,
    pub rec: Recording,
    idx: [usize; NS],
    replay: Option<Recording>,
    pub replay_seed: u64,
}

impl Choices {
    pub fn gen(seed: u64) -> Self {
        Choices {
            rng: (0..NS as u64).map(|i| Rng::new(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ (i << 56))).collect(),
            rec: Default::default(),
            idx: [0; NS],
            replay: None,
            replay_seed: seed,
        }
    }
    pub fn replay(r: Recording) -> Self {
        Choices { rng: vec![], rec: Default::default(), idx: [0; NS], replay: Some(r), replay_seed: 0 }
    }
    /// uniform in 0..n (n >= 1)
    pub fn pick(&mut self, s: usize, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            None => self.rng[s].next() % n,
            Some(r) => {
                let v = r[s].get(self.idx[s]).copied().unwrap_or(0);
                v.min(n - 1)
            }
        };
        self.idx[s] += 1;
        self.rec[s].push(v);
        v
    }
    /// a raw 64-bit draw
    pub fn raw(&mut self, s: usize) -> u64 {
        let v = match &self.replay {
            None => self.rng[s].next(),
            Some(r) => r[s].get(self.idx[s]).copied().unwrap_or(0),
        };
        self.idx[s] += 1;
        self.rec[s].push(v);
        v
    }
}
