//! Seeds and recorded choices.
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Every decision of a run is drawn here: from the seed, or from a recorded list (replay).
/// Choice 0 is always the plainest one, so that minimisation can zero and cut the list.
pub struct Ch {
    state: u64,
    replay: Option<Vec<u32>>,
    pub rec: Vec<u32>,
    sink: Option<std::fs::File>,
}

impl Ch {
    pub fn seeded(seed: u64) -> Self {
        Ch { state: seed, replay: None, rec: Vec::new(), sink: None }
    }
    pub fn replay(v: Vec<u32>) -> Self {
        Ch { state: 0, replay: Some(v), rec: Vec::new(), sink: None }
    }
    /// also write every choice to a file, so that it survives a crash
    pub fn stream_to(&mut self, f: std::fs::File) {
        self.sink = Some(f);
    }
    /// choices are no longer written to the file
    pub fn mute(&mut self) {
        std::mem::forget(self.sink.take());
    }
    /// choices that were drawn elsewhere
    pub fn absorb(&mut self, it: impl Iterator<Item = u32>) {
        for v in it {
            self.rec.push(v);
            if let Some(f) = &mut self.sink {
                let _ = std::io::Write::write_all(f, &v.to_le_bytes());
            }
        }
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let n = n.min(u32::MAX as usize);
        let v = match &self.replay {
            None => {
                self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
                (mix(self.state) % n as u64) as usize
            }
            Some(r) => (r.get(self.rec.len()).copied().unwrap_or(0) as usize).min(n - 1),
        };
        crate::alloc::off(|| self.rec.push(v as u32));
        if let Some(f) = &mut self.sink {
            let _ = std::io::Write::write_all(f, &(v as u32).to_le_bytes());
        }
        v
    }
    /// true with probability num/den; choice 0 is false.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn u64(&mut self) -> u64 {
        let hi = self.below(1 << 16) as u64;
        let a = self.below(1 << 24) as u64;
        let b = self.below(1 << 24) as u64;
        (hi << 48) | (a << 24) | b
    }
    /// index into weights
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
}
