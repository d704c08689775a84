//! Recorded random choices.  Every generated case is a pure function of a
//! tape of small integers, so shrinking and replay work on the tape.

#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for p in parts {
        for b in p.to_le_bytes() {
            h ^= b as u64;
            h = h.wrapping_mul(0x0000_0100_0000_01B3);
        }
        h ^= h >> 29;
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^ (h >> 31)
}

/// Source of choices: fresh (random, recorded) or replayed from a tape.
#[derive(Clone, Debug)]
pub struct Src {
    rng: Option<Rng>,
    given: Vec<u32>,
    pub used: Vec<u32>,
}

impl Src {
    pub fn fresh(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), given: vec![], used: vec![] }
    }
    /// Replays `tape`; choices past its end are all the simplest one (zero).
    pub fn replay(tape: &[u32]) -> Self {
        Src { rng: None, given: tape.to_vec(), used: vec![] }
    }
    /// A choice in `0..n`; zero is the simplest.
    pub fn below(&mut self, n: usize) -> usize {
        let n = n.max(1);
        let v = match &mut self.rng {
            Some(r) => (r.next() % n as u64) as usize,
            None => {
                let i = self.used.len();
                (*self.given.get(i).unwrap_or(&0) as usize).min(n - 1)
            }
        };
        self.used.push(v as u32);
        v
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi + 1 - lo)
    }
    /// True with probability num/den; false is the simpler outcome.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num.min(den)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Index chosen with the given weights (first is the simplest).
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // zero = leave in place
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn string(&mut self, alphabet: &[char], lo: usize, hi: usize) -> String {
        let n = self.range(lo, hi);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
}

/// Minimises `tape` while `fails` holds; `fails` returns the tape actually
/// consumed when the case still fails.
pub fn shrink(mut tape: Vec<u32>, budget: usize, mut fails: impl FnMut(&[u32]) -> Option<Vec<u32>>) -> Vec<u32> {
    let mut evals = 0usize;
    let better = |a: &Vec<u32>, b: &Vec<u32>| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let mut progress = false;
        // delete chunks
        let mut size = 32usize;
        while size >= 1 {
            let mut i = 0;
            while i < tape.len() && evals < budget {
                let mut t = tape.clone();
                let end = (i + size).min(t.len());
                t.drain(i..end);
                evals += 1;
                match fails(&t) {
                    Some(u) if better(&u, &tape) => {
                        tape = u;
                        progress = true;
                    }
                    _ => i += size,
                }
            }
            size /= 2;
        }
        // zero chunks
        for size in [8usize, 4, 2] {
            let mut i = 0;
            while i < tape.len() && evals < budget {
                let end = (i + size).min(tape.len());
                if tape[i..end].iter().any(|v| *v != 0) {
                    let mut t = tape.clone();
                    t[i..end].iter_mut().for_each(|v| *v = 0);
                    evals += 1;
                    if let Some(u) = fails(&t)
                        && better(&u, &tape)
                    {
                        tape = u;
                        progress = true;
                    }
                }
                i += size;
            }
        }
        // minimise single values
        let mut i = 0;
        while i < tape.len() && evals < budget {
            if tape[i] > 0 {
                let v = tape[i];
                for w in [0, v / 2, v - 1] {
                    if w >= v || evals >= budget {
                        continue;
                    }
                    let mut t = tape.clone();
                    t[i] = w;
                    evals += 1;
                    if let Some(u) = fails(&t)
                        && better(&u, &tape)
                    {
                        tape = u;
                        progress = true;
                        break;
                    }
                }
            }
            i += 1;
        }
        if !progress || evals >= budget {
            return tape;
        }
    }
}
