//! Minimises the tape of a failing run: shorter is simpler, smaller draws are simpler. Keeps the class of the violation.

use std::time::{Duration, Instant};

use crate::{Outcome, ctx::Violation, execute, tape::Tape};

pub fn shrink(prop: &str, tape: Vec<u64>, v: Violation, budget: Duration, mark: &dyn Fn(bool)) -> (Vec<u64>, Violation, u64) {
    let start = Instant::now();
    let mut best = tape;
    let mut best_v = v;
    let mut tries = 0u64;
    let mut attempt = |t: Vec<u64>, best: &mut Vec<u64>, best_v: &mut Violation| -> bool {
        tries += 1;
        mark(true);
        let (o, ctx) = execute(prop, Tape::replay(t), false);
        mark(false);
        match o {
            Outcome::Violation(v) if v.class == best_v.class => {
                let mut rec = ctx.t.rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                let better = rec.len() < best.len() || (rec.len() == best.len() && rec < *best);
                if better {
                    *best = rec;
                    *best_v = v;
                }
                better
            }
            _ => false,
        }
    };
    loop {
        let before = best.clone();
        // Truncate.
        let mut n = best.len() / 2;
        while n > 0 && start.elapsed() < budget {
            if best.len() > n {
                let t = best[..best.len() - n].to_vec();
                if attempt(t, &mut best, &mut best_v) {
                    continue;
                }
            }
            n /= 2;
        }
        // Delete spans.
        for span in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i + span <= best.len() && start.elapsed() < budget {
                let mut t = best.clone();
                t.drain(i..i + span);
                if !attempt(t, &mut best, &mut best_v) {
                    i += span.max(1);
                }
            }
        }
        // Zero spans.
        for span in [32usize, 8, 2] {
            let mut i = 0;
            while i + span <= best.len() && start.elapsed() < budget {
                if best[i..i + span].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[i..i + span].fill(0);
                    attempt(t, &mut best, &mut best_v);
                }
                i += span;
            }
        }
        // Lower single draws.
        let mut i = 0;
        while i < best.len() && start.elapsed() < budget {
            let x = best[i];
            for y in [0, x / 2, x.saturating_sub(1)] {
                if y < x {
                    let mut t = best.clone();
                    t[i] = y;
                    if attempt(t, &mut best, &mut best_v) {
                        break;
                    }
                }
            }
            i += 1;
        }
        if best == before || start.elapsed() >= budget {
            break;
        }
    }
    (best, best_v, tries)
}
