//! The recorded choice tape: the only source of nondeterminism in a run.

use std::sync::{Arc, Mutex};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// When set, every choice is also written to this file at once, so that the tape survives the process.
pub static LOG: std::sync::Mutex<Option<crate::io::Log>> = std::sync::Mutex::new(None);
pub static LOG_ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
}

/// Streams: 0 is the scenario, 1.. are the tasks of concurrent scenarios.
pub struct Tape {
    src: Src,
    pub rec: Vec<u64>,
}
enum Src {
    Rng(Rng),
    Replay(Vec<u64>, usize),
    Shared(Arc<Mutex<Tape>>),
}

impl Tape {
    /// All tasks of a run draw from one tape; only the task that holds the baton draws.
    pub fn shared(t: Arc<Mutex<Tape>>) -> Tape {
        Tape { src: Src::Shared(t), rec: vec![] }
    }
    pub fn seeded(seed: u64) -> Tape {
        Tape { src: Src::Rng(Rng::new(seed)), rec: vec![] }
    }
    pub fn replay(v: Vec<u64>) -> Tape {
        Tape { src: Src::Replay(v, 0), rec: vec![] }
    }
    /// A number in 0..n (n = 0 means the full range).
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match &mut self.src {
            Src::Shared(t) => return t.lock().unwrap_or_else(|e| e.into_inner()).below(n),
            Src::Rng(r) => {
                let x = r.next();
                if n == 0 {
                    x
                } else {
                    ((x as u128 * n as u128) >> 64) as u64
                }
            }
            Src::Replay(v, p) => {
                let x = v.get(*p).copied().unwrap_or(0);
                *p += 1;
                if n != 0 && x >= n {
                    n - 1
                } else {
                    x
                }
            }
        };
        self.rec.push(v);
        if LOG_ON.load(std::sync::atomic::Ordering::Relaxed) {
            if let Some(f) = LOG.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
                f.add(&format!("{v}\n"));
            }
        }
        v
    }
}
