//! Choice tape: every random decision of a generator is a draw from here, so a case is a pure
//! function of its tape and can be shrunk by shrinking the tape.

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub struct G {
    pub tape: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
}

impl G {
    pub fn random(seed: u64) -> G {
        G { tape: Vec::new(), pos: 0, rng: Some(Rng::new(seed)) }
    }
    /// Replays a tape; draws past its end are 0, the simplest choice.
    pub fn replay(tape: Vec<u32>) -> G {
        G { tape, pos: 0, rng: None }
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.tape.len())
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        let v = if let Some(r) = &mut self.rng {
            let v = ((r.next() >> 32) * n as u64 >> 32) as u32;
            self.tape.push(v);
            v
        } else if self.pos < self.tape.len() {
            self.tape[self.pos].min(n - 1)
        } else {
            0
        };
        self.pos += 1;
        v
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability p percent; false is the simple choice.
    pub fn pct(&mut self, p: u32) -> bool {
        self.below(100) >= 100 - p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u32) as usize;
        &xs[i]
    }
    /// Index drawn with the given weights (0 = simplest).
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, &w) in ws.iter().enumerate() {
            if v < w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    /// Small count: geometric-ish, at most max.
    pub fn count(&mut self, max: u32) -> u32 {
        let mut n = 0;
        while n < max && self.pct(55) {
            n += 1;
        }
        n
    }
}

/// Shrinks a failing tape. `fails` re-generates and re-evaluates.
pub fn shrink(mut best: Vec<u32>, budget: usize, deadline: std::time::Instant, mut fails: impl FnMut(&[u32]) -> Option<Vec<u32>>) -> Vec<u32> {
    let mut tries = 0;
    let better = |a: &[u32], b: &[u32]| (a.len(), a) < (b.len(), b);
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = best.len().max(1).next_power_of_two();
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if tries >= budget || std::time::Instant::now() > deadline {
                    return best;
                }
                let mut c = best.clone();
                let e = (i + size).min(c.len());
                c.drain(i..e);
                tries += 1;
                match fails(&c) {
                    Some(t) if better(&t, &best) => best = t,
                    _ => i += size,
                }
            }
            size /= 2;
        }
        // zero chunks, then lower single values
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                if tries >= budget || std::time::Instant::now() > deadline {
                    return best;
                }
                let mut c = best.clone();
                let e = (i + size).min(c.len());
                if c[i..e].iter().any(|&v| v != 0) {
                    c[i..e].iter_mut().for_each(|v| *v = 0);
                    tries += 1;
                    if let Some(t) = fails(&c) {
                        if better(&t, &best) {
                            best = t;
                        }
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u32;
            while i < best.len() && lo < best[i] {
                if tries >= budget || std::time::Instant::now() > deadline {
                    return best;
                }
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                tries += 1;
                match fails(&c) {
                    Some(t) if better(&t, &best) => best = t,
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}
