/// splitmix64: every random choice of the checks derives from VERIF_SEED through this.
#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn fork(&mut self, salt: u64) -> Rng {
        Rng::new(self.u64() ^ salt.wrapping_mul(0xA24BAED4963EE407))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.u64() % n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        (self.u64() % den as u64) < num as u64
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i + 1));
        }
    }

    /// f64 biased to the interesting corners of the type.
    pub fn any_f64(&mut self) -> f64 {
        const S: &[f64] = &[
            0.0,
            -0.0,
            1.0,
            -1.0,
            0.1,
            0.3,
            1e-300,
            1e300,
            f64::MAX,
            f64::MIN,
            f64::MIN_POSITIVE,
            f64::EPSILON,
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::NAN,
            5e-324,
            9007199254740992.0,
            9007199254740993.0,
            1e16,
            1e17,
            1e-5,
            123456789.125,
        ];
        match self.below(6) {
            0 => *self.pick(S),
            1 => f64::from_bits(self.u64()),
            2 => self.below(2000) as f64 - 1000.0,
            3 => (self.u64() >> 11) as f64 / (1u64 << 53) as f64,
            4 => (self.u64() as i64) as f64,
            _ => {
                let e = self.below(600) as i32 - 300;
                let m = self.below(100000) as f64;
                m * 10f64.powi(e)
            }
        }
    }
    pub fn any_i64(&mut self) -> i64 {
        match self.below(5) {
            0 => *self.pick(&[0, 1, -1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 10, -10, 99, 100, 1000000]),
            1 => self.u64() as i64,
            2 => 1i64.wrapping_shl(self.below(64) as u32),
            _ => self.below(2000) as i64 - 1000,
        }
    }
    pub fn any_u64(&mut self) -> u64 {
        match self.below(5) {
            0 => *self.pick(&[0, 1, u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1, u32::MAX as u64, 1 << 32]),
            1 => self.u64(),
            2 => 1u64.wrapping_shl(self.below(64) as u32),
            _ => self.below(2000) as u64,
        }
    }

    /// any Unicode string, biased to the bytes that matter to exposition formats.
    pub fn any_string(&mut self, max: usize) -> String {
        const SPICE: &[&str] = &[
            "\\", "\"", "\n", "\r", "\t", "{", "}", ",", "=", " ", "#", "\\n", "\\\"", "\\\\", "\u{0}", "\u{7f}",
            "é", "ß", "日本", "\u{1F600}", "\u{2028}", "\u{feff}", "\u{10FFFF}", "# TYPE x counter", "\nx 1\n", "le=\"1\"", "+Inf",
            "NaN", "'", "\u{85}", "\u{a0}", "a", "b", "Z", "0", "_", ":", "-", "/", ".", "\\u{5c}", "%", "\u{1b}[0m",
        ];
        let n = match self.below(10) {
            0 => 0,
            1..=6 => self.below(6.min(max + 1)),
            _ => self.below(max + 1),
        };
        let mut s = String::new();
        for _ in 0..n {
            match self.below(4) {
                0 | 1 => s.push_str(*self.pick(SPICE)),
                2 => s.push((b'a' + self.below(26) as u8) as char),
                _ => loop {
                    if let Some(c) = char::from_u32((self.u64() % 0x110000) as u32) {
                        s.push(c);
                        break;
                    }
                },
            }
        }
        s
    }

    pub fn label_name(&mut self) -> String {
        const F: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
        const R: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
        let n = self.below(8);
        let mut s = String::new();
        s.push(*self.pick(F) as char);
        for _ in 0..n {
            s.push(*self.pick(R) as char);
        }
        s
    }
    pub fn metric_name(&mut self) -> String {
        const F: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_:";
        const R: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_:0123456789";
        let n = self.below(12);
        let mut s = String::new();
        s.push(*self.pick(F) as char);
        for _ in 0..n {
            s.push(*self.pick(R) as char);
        }
        s
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
