//! The source of every generated choice: a sequence of integers, recorded so that a case can be
//! replayed and shrunk. 0 is always the simplest choice.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub struct Src {
    /// Every choice is written here as it is drawn, for a case that ends the process.
    pub record: Option<std::fs::File>,
    pub choices: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { record: None, choices: vec![], pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { record: None, choices, pos: 0, rng: None }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(rng) => {
                let v = rng.next() % n;
                self.choices.push(v);
                if let Some(f) = &mut self.record {
                    use std::io::Write;
                    let _ = f.write_all(&v.to_le_bytes());
                }
                v
            }
            None => self.choices.get(self.pos).copied().unwrap_or(0) % n,
        };
        self.pos += 1;
        v
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    /// true with probability num/den; 0 is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len() as u64) as usize]
    }
    /// index by weight
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            let j = i - self.below(i as u64 + 1) as usize;
            items.swap(i, j);
        }
    }
}
