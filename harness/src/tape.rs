//! Choice tapes: all generators draw bounded numbers from a `Src`; what was drawn is recorded, so
//! that a case can be replayed and shrunk without the generators knowing about it.

use rand::{rngs::StdRng, Rng, SeedableRng};

pub struct Src {
    replay: Option<Vec<u64>>,
    pos: usize,
    rng: StdRng,
    pub tape: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Self {
            replay: None,
            pos: 0,
            rng: StdRng::seed_from_u64(seed),
            tape: vec![],
        }
    }

    pub fn replay(tape: &[u64]) -> Self {
        Self {
            replay: Some(tape.to_vec()),
            pos: 0,
            rng: StdRng::seed_from_u64(0),
            tape: vec![],
        }
    }

    /// A number in 0..n. 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &self.replay {
            None => self.rng.gen_range(0..n),
            // Past the end of a (shrunk) tape everything is the simplest choice.
            Some(t) => t.get(self.pos).copied().unwrap_or(0) % n,
        };
        self.pos += 1;
        self.tape.push(v);
        v
    }

    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// A number in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    /// True with probability num/den; false is the simpler choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.usize(items.len())]
    }

    /// Index chosen according to weights; index 0 is the simplest.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut v = self.below(u64::from(total)) as u32;
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
}

/// Shrinks `tape` as long as `fails` keeps returning the tape actually consumed.
/// `fails` returns None if the candidate passes.
pub fn shrink(
    tape: Vec<u64>,
    deadline: std::time::Instant,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    let mut best = tape;
    let better = |new: &[u64], old: &[u64]| -> bool {
        new.len() < old.len() || (new.len() == old.len() && new < old)
    };
    let over = |d: std::time::Instant| std::time::Instant::now() > d;
    loop {
        let before = best.clone();
        // Delete blocks.
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                if over(deadline) {
                    return best;
                }
                let mut cand = best.clone();
                cand.drain(i..i + size);
                match fails(&cand) {
                    Some(t) if better(&t, &best) => best = t,
                    _ => i += size.div_ceil(2).max(1),
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero blocks.
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if over(deadline) {
                    return best;
                }
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..i + size].iter_mut().for_each(|v| *v = 0);
                    if let Some(t) = fails(&cand) {
                        if better(&t, &best) {
                            best = t;
                        }
                    }
                }
                i += size;
            }
        }
        // Lower single numbers by bisection.
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && i < best.len() {
                if over(deadline) {
                    return best;
                }
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                match fails(&cand) {
                    Some(t) if better(&t, &best) => {
                        best = t;
                        hi = mid;
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}
