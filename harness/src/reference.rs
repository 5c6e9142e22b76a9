//! The trajectory of the two systems of spec/Elem.tla, with the nodes that spec/CurvesNodes.tla gives: real values of the elementary
//! functions, in f64 (with an error below 10^-10).
use crate::rows::Row;

pub struct Reference {
    pub half_pi: f64,
    pub ln2: f64,
    n: usize,
    per_half_pi: f64,
    per_ln2: f64,
    step: f64,
    step2: f64,
    ln10: f64,
    cos: Vec<f64>,
    sin: Vec<f64>,
    exp2: Vec<f64>,
}

/// An integer at most 1 below t
#[inline(always)]
fn whole(t: f64) -> i64 {
    t as i64 - (t < 0.0) as i64
}

impl Reference {
    pub fn new(rows: &[Row]) -> Reference {
        // 24 places (and the integer part), and 24 more
        let pair = |r: &Row, k: &str| {
            let p = r.ints(k);
            p[0] as f64 / (1u64 << 24) as f64 + p[1] as f64 / (1u64 << 48) as f64
        };
        let n = rows[0].int("n") as usize;
        if rows.len() != n + 2 {
            crate::die("incomplete trajectory");
        }
        let col = |k: &str| rows[1..].iter().map(|r| pair(r, k)).collect::<Vec<_>>();
        let (half_pi, ln2) = (pair(&rows[0], "halfpi"), pair(&rows[0], "ln2"));
        let mut r = Reference {
            half_pi,
            ln2,
            n,
            per_half_pi: 1.0 / half_pi,
            per_ln2: 1.0 / ln2,
            step: half_pi / n as f64,
            step2: ln2 / n as f64,
            ln10: 0.0,
            cos: col("cos"),
            sin: col("sin"),
            exp2: col("exp2"),
        };
        r.ln10 = r.ln(10.0);
        r
    }
    pub fn load(path: &str) -> Reference {
        Reference::new(&crate::rows::load(path))
    }
    pub fn pi(&self) -> f64 {
        2.0 * self.half_pi
    }
    /// (cos, sin): whole quarter turns, then whole steps, then the rest by the addition theorem
    pub fn cos_sin(&self, x: f64) -> (f64, f64) {
        let t = x * self.per_half_pi;
        let q = whole(t);
        let r = x - q as f64 * self.half_pi;
        let i = ((t - q as f64) * self.n as f64) as usize;
        let i = i.min(self.n);
        let d = r - i as f64 * self.step;
        let d2 = d * d;
        let (dc, ds) = (1.0 - d2 / 2.0 + d2 * d2 / 24.0, d - d * d2 / 6.0);
        let (c, s) = (self.cos[i] * dc - self.sin[i] * ds, self.sin[i] * dc + self.cos[i] * ds);
        match q & 3 {
            0 => (c, s),
            1 => (-s, c),
            2 => (-c, -s),
            _ => (s, -c),
        }
    }
    pub fn cos(&self, x: f64) -> f64 {
        self.cos_sin(x).0
    }
    pub fn sin(&self, x: f64) -> f64 {
        self.cos_sin(x).1
    }
    /// e^x: whole doublings, then whole steps, then the rest
    pub fn exp(&self, x: f64) -> f64 {
        let t = x * self.per_ln2;
        let k = whole(t).clamp(-1000, 1000);
        let i = (((t - k as f64) * self.n as f64) as usize).min(self.n);
        let d = x - k as f64 * self.ln2 - i as f64 * self.step2;
        let v = self.exp2[i] * (1.0 + d + d * d / 2.0 + d * d * d / 6.0);
        v * f64::from_bits(((1023 + k) as u64) << 52)
    }
    pub fn ln10(&self) -> f64 {
        self.ln10
    }
    /// ln x for positive normal f64: the time to reach x
    pub fn ln(&self, x: f64) -> f64 {
        let b = x.to_bits();
        let k = (b >> 52) as i64 - 1023;
        let y = f64::from_bits((b & ((1 << 52) - 1)) | (1023 << 52));
        // the node below y (log2 is concave: the guess is not above, and at most n/11 below)
        let mut i = ((y - 1.0) * self.n as f64) as usize;
        while i + 1 < self.exp2.len() && self.exp2[i + 1] <= y {
            i += 1;
        }
        while self.exp2[i] > y {
            i -= 1;
        }
        let e = y / self.exp2[i] - 1.0;
        let l = e * (1.0 - e * (0.5 - e * (1.0 / 3.0 - e * 0.25)));
        k as f64 * self.ln2 + i as f64 * self.step2 + l
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn against_std() {
        let r = Reference::load(&std::env::var("ELEM").unwrap());
        let mut m = [0f64; 4];
        let mut g = crate::Rng::new(1, 1);
        for _ in 0..1_000_000 {
            let x = (g.unit() - 0.5) * 16384.0;
            m[0] = m[0].max((r.sin(x) - x.sin()).abs());
            m[1] = m[1].max((r.cos(x) - x.cos()).abs());
            let y = (g.unit() - 0.5) * 176.0;
            m[2] = m[2].max((r.exp(y) / y.exp() - 1.0).abs());
            let z = y.exp();
            m[3] = m[3].max((r.ln(z) - z.ln()).abs());
        }
        println!("{m:?}");
        assert!(m.iter().all(|e| *e < 1e-10));
    }
}
