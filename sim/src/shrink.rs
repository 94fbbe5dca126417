//! Minimises a failing scenario: clients, steps, faults, preemptions, world.

use crate::exec::{Scenario, Step};
use crate::world::ClockPlan;
use std::time::{Duration, Instant};

/// Judges a candidate: the kind of the violation it shows, if any.
pub type Eval<'a> = dyn FnMut(&Scenario) -> Option<String> + 'a;

pub struct Shrink<'a> {
    pub eval: &'a mut Eval<'a>,
    pub kind: String,
    pub until: Instant,
    pub best: Scenario,
    pub tried: u64,
    /// called with every improvement
    pub keep: &'a mut dyn FnMut(&Scenario),
}

impl Shrink<'_> {
    fn out_of_time(&self) -> bool {
        Instant::now() >= self.until
    }
    fn attempt(&mut self, c: Scenario) -> bool {
        if self.out_of_time() || c == self.best {
            return false;
        }
        self.tried += 1;
        if (self.eval)(&c).as_deref() == Some(self.kind.as_str()) {
            (self.keep)(&c);
            self.best = c;
            true
        } else {
            false
        }
    }

    /// ddmin over the elements counted by `len` and removed by `cut`.
    fn ddmin(&mut self, len: impl Fn(&Scenario) -> usize, cut: impl Fn(&mut Scenario, usize, usize)) -> bool {
        let mut any = false;
        let mut chunk = (len(&self.best) / 2).max(1);
        loop {
            let mut i = 0;
            let mut hit = false;
            while i < len(&self.best) {
                if self.out_of_time() {
                    return any;
                }
                let n = chunk.min(len(&self.best) - i);
                let mut c = self.best.clone();
                cut(&mut c, i, n);
                if self.attempt(c) {
                    any = true;
                    hit = true;
                } else {
                    i += n;
                }
            }
            if chunk == 1 {
                if !hit {
                    return any;
                }
            } else {
                chunk = (chunk / 2).max(1);
            }
        }
    }

    pub fn run(&mut self) {
        // Nothing after the failing step matters, usually.
        loop {
            let mut any = false;
            // whole clients
            let mut c = 0;
            while self.best.clients.len() > 1 && c < self.best.clients.len() {
                let mut s = self.best.clone();
                s.clients.remove(c);
                s.preempt.retain(|(_, k)| *k as usize != c);
                for p in &mut s.preempt {
                    if p.1 as usize > c {
                        p.1 -= 1;
                    }
                }
                if self.attempt(s) {
                    any = true;
                } else {
                    c += 1;
                }
            }
            any |= self.ddmin(|s| s.preempt.len(), |s, i, n| drop(s.preempt.drain(i..i + n)));
            for k in 0..self.best.clients.len() {
                any |= self.ddmin(move |s| s.clients[k].len(), move |s, i, n| drop(s.clients[k].drain(i..i + n)));
            }
            // single faults
            for k in 0..self.best.clients.len() {
                for i in 0..self.best.clients[k].len() {
                    loop {
                        let n = faults(&self.best.clients[k][i]).map_or(0, |f| f.len());
                        let mut hit = false;
                        for j in 0..n {
                            let mut s = self.best.clone();
                            faults_mut(&mut s.clients[k][i]).unwrap().remove(j);
                            if self.attempt(s) {
                                hit = true;
                                any = true;
                                break;
                            }
                        }
                        if !hit {
                            break;
                        }
                    }
                }
            }
            // ways of rewriting, deformations
            for k in 0..self.best.clients.len() {
                for i in 0..self.best.clients[k].len() {
                    for bit in 0..32 {
                        let mut s = self.best.clone();
                        match &mut s.clients[k][i] {
                            Step::Rewrite { ways, .. } if *ways & (1 << bit) != 0 => *ways &= !(1 << bit),
                            Step::Broken { tweaks, .. } if bit < tweaks.len() => drop(tweaks.remove(bit)),
                            _ => continue,
                        }
                        any |= self.attempt(s);
                    }
                }
            }
            // a plain world
            let mut s = self.best.clone();
            s.clock = ClockPlan {
                start: 1_700_000_000,
                step: 1_000_000,
                jumps: vec![],
            };
            any |= self.attempt(s);
            let mut s = self.best.clone();
            s.hash_seed = 0;
            any |= self.attempt(s);
            if !any || self.out_of_time() {
                return;
            }
        }
    }
}

fn faults(s: &Step) -> Option<&Vec<crate::world::Fault>> {
    match s {
        Step::Save { faults, .. } | Step::Load { faults, .. } => Some(faults),
        _ => None,
    }
}
fn faults_mut(s: &mut Step) -> Option<&mut Vec<crate::world::Fault>> {
    match s {
        Step::Save { faults, .. } | Step::Load { faults, .. } => Some(faults),
        _ => None,
    }
}

pub fn limit(secs: u64) -> Instant {
    Instant::now() + Duration::from_secs(secs)
}
