//! Replays what the specifications in /verif/spec describe on the real code.
pub mod delicate;
pub mod iters;
pub mod out;
pub mod poly;
pub mod reference;
pub mod rows;
pub mod sweep;
pub mod texts;
pub mod vecs;

/// xorshift64*, so that runs depend on VERIF_SEED only
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng((seed ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(0xD134_2543_DE82_EF95) ^ stream.wrapping_mul(0xA076_1D64_78BD_642F) | 1);
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn u32(&mut self) -> u32 {
        (self.next() >> 32) as u32
    }
    /// 0 <= result < n
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() >> 32) * n) >> 32
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
}

/// Numeric equality, with NaN equal to NaN
pub fn same_num(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
/// Equality of bits, with NaN equal to NaN
pub fn same_bits(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

pub fn show(x: f32) -> String {
    format!("{:?} (0x{:08x})", x, x.to_bits())
}

/// Command line: --key value ...
pub struct Args(pub Vec<String>);
impl Args {
    pub fn get() -> Args {
        Args(std::env::args().skip(1).collect())
    }
    pub fn opt(&self, key: &str) -> Option<String> {
        let k = format!("--{key}");
        self.0.iter().position(|a| *a == k).map(|i| self.0[i + 1].clone())
    }
    pub fn req(&self, key: &str) -> String {
        self.opt(key).unwrap_or_else(|| die(&format!("missing --{key}")))
    }
    pub fn seed(&self) -> u64 {
        self.opt("seed").and_then(|s| s.parse().ok()).unwrap_or(1)
    }
    pub fn thorough(&self) -> bool {
        self.opt("tier").as_deref() == Some("thorough")
    }
}

/// An error of the harness itself
pub fn die(msg: &str) -> ! {
    eprintln!("harness error: {msg}");
    std::process::exit(2)
}
