//! deterministic generator: one u64 seed is one case
pub struct Rng(pub u64);
const EDGE8: [u8; 30] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15, 16, 20, 26, 31, 32, 0x29, 0x2b, 0x2e, 0x3f, 0x40, 0x7f, 0x80, 0xfd, 0xfe, 0xff, 0x11];
const EDGE16: [u16; 16] = [0, 1, 2, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0x7fff, 0x8000, 0xf000, 0xfffe, 0xffff, 3671, 0x0f00];
/// numbers that the code under test mentions and the baseline does not (KREPLAY_DICT, comma separated)
fn dict() -> &'static [u64] {
    static D: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    D.get_or_init(|| std::env::var("KREPLAY_DICT").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect())
}
pub fn fdict() -> &'static [f32] {
    static D: std::sync::OnceLock<Vec<f32>> = std::sync::OnceLock::new();
    D.get_or_init(|| std::env::var("KREPLAY_FDICT").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect())
}
impl Rng {
    fn from_dict(&mut self, max: u64) -> Option<u64> {
        let d = dict();
        if d.is_empty() || self.below(4) != 0 {
            return None;
        }
        let v = d[self.below(d.len())];
        if v <= max { Some(v) } else { Some((v >> (8 * self.below(8))) & max) }
    }
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n.max(1) as u64) as usize
    }
    pub fn flip(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn u8(&mut self) -> u8 {
        if let Some(v) = self.from_dict(0xff) {
            return v as u8;
        }
        if self.below(3) == 0 {
            EDGE8[self.below(EDGE8.len())]
        } else {
            self.u64() as u8
        }
    }
    pub fn u16(&mut self) -> u16 {
        if let Some(v) = self.from_dict(0xffff) {
            return v as u16;
        }
        match self.below(4) {
            0 => EDGE16[self.below(EDGE16.len())],
            1 => u16::from_be_bytes([self.u8(), self.u8()]),
            _ => self.u64() as u16,
        }
    }
    pub fn u32(&mut self) -> u32 {
        if let Some(v) = self.from_dict(0xffffffff) {
            return v as u32;
        }
        match self.below(4) {
            0 => [0u32, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xff, 0x100, 0xffff, 0x10000, 0xffffff, 0x1000000][self.below(11)],
            1 => u32::from_be_bytes([self.u8(), self.u8(), self.u8(), self.u8()]),
            _ => self.u64() as u32,
        }
    }
    pub fn len(&mut self) -> usize {
        if let Some(v) = self.from_dict(1023) {
            return v as usize;
        }
        match self.below(12) {
            0 => 0,
            1 => 1,
            2 => 2,
            3..=7 => self.below(24),
            8 | 9 => self.below(80),
            10 => 240 + self.below(24),
            _ => self.below(700),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let z = self.below(4);
        (0..n)
            .map(|_| match z {
                0 => self.u8(),
                1 => {
                    if self.one_in(4) {
                        self.u8()
                    } else {
                        0
                    }
                }
                _ => self.u64() as u8,
            })
            .collect()
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
    /// mutates a well-formed message: nothing, bytes replaced, truncated, extended
    pub fn mutate(&mut self, mut v: Vec<u8>) -> Vec<u8> {
        let n = match self.below(10) {
            0..=3 => 0,
            4..=6 => 1,
            7 | 8 => 2,
            _ => 4,
        };
        for _ in 0..n {
            match self.below(8) {
                0 => {
                    let k = self.below(v.len() + 1);
                    v.truncate(k);
                }
                1 => {
                    let k = 1 + self.below(4);
                    let e = self.bytes(k);
                    v.extend(e);
                }
                2 if !v.is_empty() => {
                    v.pop();
                }
                3 if !v.is_empty() => {
                    let i = self.below(v.len());
                    v[i] ^= 1 << self.below(8);
                }
                4 if !v.is_empty() => {
                    let i = self.below(v.len());
                    v[i] = v[i].wrapping_add(1);
                }
                5 if !v.is_empty() => {
                    let i = self.below(v.len());
                    v[i] = v[i].wrapping_sub(1);
                }
                6 if v.len() > 6 => {
                    // the length field of the header
                    let i = 4 + self.below(2);
                    v[i] = self.u8();
                }
                _ if !v.is_empty() => {
                    let i = self.below(v.len());
                    v[i] = self.u8();
                }
                _ => {}
            }
        }
        v
    }
}
