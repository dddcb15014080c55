//! xoshiro256** seeded with splitmix64.
pub struct Rng {
    s: [u64; 4],
    /// Units of this case's lengths and of its pixels: powers of two, usually one.
    pub len: f64,
    pub pix: f64,
    /// Smaller numbers of the code are not drawn: their products would underflow.
    pub least: f64,
    /// Draws to return first; with `keep`, all draws (up to a limit) end up here.
    pub tape: Vec<u64>,
    pos: usize,
    keep: bool,
}
/// Numbers that occur in the code under observation, their squares and square roots: code treats values near those
/// differently.  Drawn now and then wherever a range of numbers is drawn that contains them.
pub static WORDS: std::sync::OnceLock<Vec<f64>> = std::sync::OnceLock::new();
pub fn set_words(w: &[f64]) {
    let mut v = Vec::new();
    for x in w.iter().map(|x| x.abs()) {
        // twice: most likely as it is
        v.extend([x, x, x.sqrt(), x * x].iter().filter(|x| **x > 1e-14 && **x < 1e14));
    }
    let _ = WORDS.set(v);
    let _ = SIZES.set(w.iter().filter(|x| x.fract() == 0.0 && **x >= 4.0 && **x < 1e6).map(|x| *x as usize).collect());
}
static SIZES: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
/// So many draws of a case are kept.
pub const TAPE: usize = 4096;
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hash(parts: &[u64]) -> u64 {
    let mut h = 0x243f6a8885a308d3;
    for p in parts {
        h = mix(h ^ mix(*p));
    }
    h
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = [0; 4];
        let mut z = seed;
        for x in &mut s {
            z = mix(z);
            *x = z;
        }
        Rng { s, len: 1.0, pix: 1.0, least: 1e-14, tape: Vec::new(), pos: 0, keep: false }
    }
    /// Draws as given first, and keeps all.
    pub fn with_tape(seed: u64, tape: Vec<u64>) -> Rng {
        let mut g = Rng::new(seed);
        (g.tape, g.keep) = (tape, true);
        g
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        if self.keep {
            return self.taped(r);
        }
        r
    }
    #[cold]
    fn taped(&mut self, fresh: u64) -> u64 {
        let k = self.pos;
        self.pos += 1;
        if k < self.tape.len() {
            return self.tape[k];
        }
        if k < TAPE {
            self.tape.push(fresh);
        }
        fresh
    }
    /// Draws the units, up to so many decades from one.
    pub fn units(&mut self, len: f64, pix: f64) {
        let mut one = |often: usize, dec: f64| -> f64 {
            let k = self.below(4 * often);
            let d = match k {
                0 | 1 => dec.min(6.0),
                2 | 3 => dec,
                _ => return 1.0,
            };
            2f64.powi((self.range(-d, d) * 10f64.log2()).round() as i32)
        };
        let (l, p) = (one(3, len), one(5, pix));
        self.len = l;
        self.pix = p;
    }
    /// A length drawn in decades, in this case's unit.
    pub fn len(&mut self, a: f64, b: f64) -> f64 {
        self.log(a, b) * self.len
    }
    /// Below `n`.
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// True once in `n`.
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    /// In [0, 1).
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        let r = self.u64();
        if let Some(x) = self.word(r, |x| (a <= x && x <= b) || (a <= -x && -x <= b)) {
            return if a <= x && x <= b && (r & 64 == 0 || -x < a || -x > b) { x } else { -x };
        }
        a + (b - a) * ((r >> 11) as f64 / (1u64 << 53) as f64)
    }
    /// A number of the code, as it is or nearly, if one is in the range.  The draw `r` decides; its low bits are not
    /// used otherwise.
    #[inline]
    fn word(&self, r: u64, inside: impl Fn(f64) -> bool) -> Option<f64> {
        if r & 31 != 0 {
            return None;
        }
        let w = WORDS.get().filter(|w| !w.is_empty())?;
        let x = w[((r >> 11) as u128 * w.len() as u128 >> 53) as usize];
        let s = mix(r);
        let x = match s & 7 {
            0 | 1 | 2 => x,
            // within a few percent, or less
            k => x * (1.0 + if k & 1 == 0 { 1.0 } else { -1.0 } * 10f64.powf(-1.0 - 15.0 * ((s >> 11) as f64 / (1u64 << 53) as f64).powi(2))),
        };
        Some(x).filter(|x| *x >= self.least && inside(*x))
    }
    /// An integer of the code, or next to one, below `max`.
    pub fn size_word(&mut self, max: usize) -> Option<usize> {
        let w = SIZES.get().filter(|w| !w.is_empty())?;
        let x = w[self.below(w.len())] + self.below(3) - 1;
        Some(x).filter(|x| *x < max)
    }
    pub fn sign(&mut self) -> f64 {
        if self.u64() & 1 == 0 {
            1.0
        } else {
            -1.0
        }
    }
    /// 10^range(a, b).
    pub fn log(&mut self, a: f64, b: f64) -> f64 {
        let r = self.u64();
        if r & 31 == 0 {
            let (lo, hi) = (10f64.powf(a), 10f64.powf(b));
            if let Some(x) = self.word(r, |x| lo <= x && x <= hi) {
                return x;
            }
        }
        10f64.powf(a + (b - a) * ((r >> 11) as f64 / (1u64 << 53) as f64))
    }
    pub fn normal(&mut self) -> f64 {
        let r = (-2.0 * (1.0 - self.unit()).ln()).sqrt();
        r * (std::f64::consts::TAU * self.unit()).cos()
    }
    pub fn pick<T: Copy>(&mut self, a: &[T]) -> T {
        a[self.below(a.len())]
    }
    pub fn shuffle<T>(&mut self, a: &mut [T]) {
        for i in (1..a.len()).rev() {
            a.swap(i, self.below(i + 1));
        }
    }
}
