//! Choice-tape generator: every random decision of a case is one recorded
//! `u64`, so a case can be replayed and shrunk as a plain list of numbers.
pub struct Gen {
    pub tape: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
}
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Gen {
    pub fn random(seed: u64) -> Gen {
        Gen { tape: vec![], pos: 0, rng: Some(mix(seed)) }
    }
    pub fn replay(tape: Vec<u64>) -> Gen {
        Gen { tape, pos: 0, rng: None }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    fn raw(&mut self, bound: Option<u64>) -> u64 {
        let v = match &mut self.rng {
            Some(s) => {
                *s = s.wrapping_add(0x9E3779B97F4A7C15);
                let v = mix(*s);
                let v = match bound {
                    Some(b) => v % b,
                    None => v,
                };
                self.tape.push(v);
                RECORD.with(|r| if let Some(f) = r.borrow_mut().as_mut() { use std::io::Write; let _ = f.write_all(&v.to_le_bytes()); });
                v
            }
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                match bound {
                    Some(b) => v % b,
                    None => v,
                }
            }
        };
        self.pos += 1;
        v
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.raw(Some(n))
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi - lo == u64::MAX {
            return self.raw(None);
        }
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.us(v.len());
        &v[i]
    }
    /// index by weight; shrinks to 0
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut x = self.below(t);
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        0
    }
    /// any u64, boundary values favoured
    pub fn u64(&mut self) -> u64 {
        match self.below(8) {
            0 | 1 => self.below(8),
            2 => self.below(1000),
            3 => u64::MAX - self.below(4),
            4 => {
                let b = self.below(64);
                (1u64 << b).wrapping_add(self.below(3)).wrapping_sub(1)
            }
            5 => self.below(1 << 32),
            6 => self.below(2_000_000_000),
            _ => self.raw(None),
        }
    }
    pub fn u32(&mut self) -> u32 {
        match self.below(5) {
            0 | 1 => self.below(8) as u32,
            2 => u32::MAX - self.below(4) as u32,
            3 => self.below(70000) as u32,
            _ => self.below(1 << 32) as u32,
        }
    }
    pub fn u16(&mut self) -> u16 {
        match self.below(4) {
            0 | 1 => self.below(8) as u16,
            2 => u16::MAX - self.below(4) as u16,
            _ => self.below(1 << 16) as u16,
        }
    }
    pub fn u8(&mut self) -> u8 {
        self.below(256) as u8
    }
    /// n bytes from one choice (shrinks to all zero)
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let s = self.raw(None);
        expand(s, n)
    }
    /// n bytes, each its own choice
    pub fn bytes_each(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        self.bytes(N).try_into().unwrap()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.us(i + 1);
            v.swap(i, j);
        }
    }
}
pub fn expand(s: u64, n: usize) -> Vec<u8> {
    if s == 0 {
        return vec![0; n];
    }
    let mut v = Vec::with_capacity(n + 8);
    let mut i = 0;
    while v.len() < n {
        v.extend(mix(s ^ mix(i)).to_le_bytes());
        i += 1;
    }
    v.truncate(n);
    v
}

thread_local! {
    pub static RECORD: std::cell::RefCell<Option<std::fs::File>> = const { std::cell::RefCell::new(None) };
}
