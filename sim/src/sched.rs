//! The scheduler: simulated clients are real threads of which exactly one holds the baton.
//! Who gets it next is decided by the run's PRNG, or by an explicit switch list on replay.
use std::collections::BTreeMap;
use std::sync::{Arc, Condvar, Mutex};

use serde::{Deserialize, Serialize};

use crate::prng::Rng;
use crate::rt::NEVER;

/// One baton hand-over: client `from`, in its operation `op`, after `tick` steps of it, to client `to`.
/// `forced` marks points where the client could not have gone on (lock, end).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Switch { pub from: usize, pub op: u32, pub tick: u64, pub to: usize, #[serde(default)] pub forced: bool }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Schedule {
    /// Seed, and mean number of steps between preemptions (0: switch only between operations).
    Seeded { seed: u64, mean: u64 },
    /// First client and all hand-overs.
    Explicit { first: usize, switches: Vec<Switch> },
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St { Runnable, WantRead(usize), WantWrite(usize), Done }

struct Inner {
    current: usize,
    st: Vec<St>,
    readers: Vec<usize>,
    writer: Vec<bool>,
    rng: Rng,
    mean: u64,
    explicit: Option<BTreeMap<(usize, u32, u64, bool), usize>>,
    trace: Vec<Switch>,
    hash: u64,
    seq: u64,
    budget: u32,
}

pub struct Sched { m: Mutex<Inner>, cvs: Vec<Condvar>, first: usize }

impl Sched {
    pub fn new(n: usize, locks: usize, sc: &Schedule) -> Arc<Self> {
        let (mut rng, mean, explicit, first) = match sc {
            Schedule::Seeded { seed, mean } => (Rng::new(*seed), *mean, None, None),
            Schedule::Explicit { first, switches } => {
                let m = switches.iter().map(|s| ((s.from, s.op, s.tick, s.forced), s.to)).collect();
                (Rng::new(0), 0, Some(m), Some(*first))
            },
        };
        let first = match first { Some(f) if f < n => f, Some(_) => 0, None => rng.below(n) };
        Arc::new(Sched {
            m: Mutex::new(Inner { current: first, st: vec![St::Runnable; n], readers: vec![0; locks], writer: vec![false; locks], rng, mean,
                explicit, trace: vec![], hash: first as u64, seq: 0, budget: 4000 }),
            cvs: (0..n).map(|_| Condvar::new()).collect(),
            first,
        })
    }

    pub fn start(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        while g.current != me { g = self.cvs[me].wait(g).unwrap() }
    }

    fn grantable(g: &Inner, i: usize) -> bool {
        match g.st[i] {
            St::Runnable => true,
            St::WantRead(l) => !g.writer[l],
            St::WantWrite(l) => !g.writer[l] && g.readers[l] == 0,
            St::Done => false,
        }
    }

    fn give(&self, mut g: std::sync::MutexGuard<'_, Inner>, me: usize, op: u32, tick: u64, forced: bool, may_stay: bool) {
        let cand: Vec<usize> = (0..g.st.len()).filter(|&i| (i != me || may_stay) && Self::grantable(&g, i)).collect();
        if cand.is_empty() {
            if g.st.iter().all(|s| *s == St::Done) || may_stay || g.st[me] == St::Runnable { return }
            // Everybody waits: impossible, as holders of the simulated lock stay runnable.
            panic!("simulator deadlock: {:?}", g.st);
        }
        let to = match &g.explicit {
            Some(m) => match m.get(&(me, op, tick, forced)) {
                Some(&t) if cand.contains(&t) => t,
                _ if !forced && cand.contains(&me) => me,
                _ => cand[0],
            },
            None => { let k = g.rng.below(cand.len()); cand[k] },
        };
        if to == me { return }
        g.trace.push(Switch { from: me, op, tick, to, forced });
        g.hash = crate::prng::mix(g.hash, (me as u64) << 56 ^ (op as u64) << 40 ^ tick << 8 ^ to as u64);
        g.current = to;
        self.cvs[to].notify_one();
        if g.st[me] == St::Done { return }
        while g.current != me { g = self.cvs[me].wait(g).unwrap() }
    }

    fn next_after(g: &mut Inner, me: usize, op: u32, tick: u64) -> u64 {
        match &g.explicit {
            Some(m) => m.range((me, op, tick + 1, false)..=(me, op, u64::MAX, true)).find(|(k, _)| !k.3).map(|(k, _)| k.2).unwrap_or(NEVER),
            None if g.mean == 0 || g.budget == 0 => NEVER,
            None => { g.budget -= 1; let m = g.mean; tick + 1 + (g.rng.next() % (2 * m)) },
        }
    }

    pub fn first_switch(&self, me: usize, op: u32) -> u64 {
        Self::next_after(&mut self.m.lock().unwrap(), me, op, 0)
    }

    /// Preemption point inside the code under test; returns the tick of the next one.
    pub fn preempt(&self, me: usize, op: u32, tick: u64) -> u64 {
        self.give(self.m.lock().unwrap(), me, op, tick, false, true);
        Self::next_after(&mut self.m.lock().unwrap(), me, op, tick)
    }

    /// The code under test waits on a lock of its own: others must run.
    pub fn blocked_elsewhere(&self, me: usize, op: u32, tick: u64) {
        self.give(self.m.lock().unwrap(), me, op, tick, true, false);
    }

    /// Between two operations.
    pub fn op_boundary(&self, me: usize, op: u32) {
        self.give(self.m.lock().unwrap(), me, op, 0, false, true);
    }

    pub fn lock(&self, me: usize, op: u32, nth: u64, l: usize, write: bool) {
        let mut g = self.m.lock().unwrap();
        g.st[me] = if write { St::WantWrite(l) } else { St::WantRead(l) };
        if !Self::grantable(&g, me) {
            self.give(g, me, op, nth, true, false);
            g = self.m.lock().unwrap();
            assert!(g.current == me && Self::grantable(&g, me));
        }
        g.st[me] = St::Runnable;
        if write { g.writer[l] = true } else { g.readers[l] += 1 }
    }

    pub fn unlock(&self, l: usize, write: bool) {
        let mut g = self.m.lock().unwrap();
        if write { g.writer[l] = false } else { g.readers[l] -= 1 }
    }

    pub fn finish(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.st[me] = St::Done;
        self.give(g, me, u32::MAX, 0, true, false);
    }

    /// Global event number.
    pub fn seq(&self) -> u64 {
        let mut g = self.m.lock().unwrap();
        g.seq += 1;
        g.seq
    }

    pub fn report(&self) -> (Schedule, u64, u64) {
        let g = self.m.lock().unwrap();
        (Schedule::Explicit { first: self.first, switches: g.trace.clone() }, g.hash, g.trace.len() as u64)
    }
}
