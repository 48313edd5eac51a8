//! Cooperative scheduler over real threads: exactly one task holds the baton; at every seam (type lookup,
//! consumer callback) the tape decides who runs next.

use crate::tape::Tape;
use std::sync::{Arc, Condvar, Mutex};

struct St {
    cur: usize,
    alive: Vec<bool>,
    switches: u64,
    hash: u64,
}
pub struct Sched {
    st: Mutex<St>,
    cv: Condvar,
    tape: Arc<Mutex<Tape>>,
    /// one switch in `every` seams (0: run each task to completion)
    every: u64,
}

impl Sched {
    pub fn new(tasks: usize, tape: Arc<Mutex<Tape>>, every: u64) -> Sched {
        Sched {
            st: Mutex::new(St { cur: usize::MAX, alive: vec![true; tasks], switches: 0, hash: 0 }),
            cv: Condvar::new(),
            tape,
            every,
        }
    }
    fn draw(&self, n: u64) -> u64 {
        self.tape.lock().unwrap_or_else(|e| e.into_inner()).below(n)
    }
    fn lock(&self) -> std::sync::MutexGuard<'_, St> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn pass(&self, st: &mut St, me: Option<usize>) {
        let alive: Vec<usize> = (0..st.alive.len()).filter(|i| st.alive[*i]).collect();
        if alive.is_empty() {
            st.cur = usize::MAX - 1;
        } else {
            let k = if alive.len() == 1 { 0 } else { self.draw(alive.len() as u64) as usize };
            st.cur = alive[k];
        }
        if Some(st.cur) != me {
            st.switches += 1;
            st.hash = (st.hash ^ st.cur as u64).wrapping_mul(0x100000001b3).rotate_left(7);
            self.cv.notify_all();
        }
    }
    /// Start the first task.
    pub fn go(&self) {
        let mut st = self.lock();
        self.pass(&mut st, None);
    }
    /// First thing a task does.
    pub fn wait_turn(&self, me: usize) {
        let mut st = self.lock();
        while st.cur != me {
            st = self.cv.wait(st).unwrap_or_else(|e| e.into_inner());
        }
    }
    pub fn yield_now(&self, me: usize) {
        if self.every == 0 {
            return;
        }
        let mut st = self.lock();
        if st.alive.iter().filter(|a| **a).count() < 2 {
            return;
        }
        if self.draw(self.every) != self.every - 1 {
            return;
        }
        self.pass(&mut st, Some(me));
        while st.cur != me {
            st = self.cv.wait(st).unwrap_or_else(|e| e.into_inner());
        }
    }
    /// Last thing a task does.
    pub fn finish(&self, me: usize) {
        let mut st = self.lock();
        st.alive[me] = false;
        self.pass(&mut st, Some(me));
    }
    pub fn stats(&self) -> (u64, u64) {
        let st = self.lock();
        (st.switches, st.hash)
    }
}
