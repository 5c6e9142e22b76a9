//! The polynomials of spec/Poly.tla
use crate::rows::Row;
use std::collections::HashMap;

const NAMES: [&str; 22] = ["ax", "ay", "az", "bx", "by", "bz", "cx", "cy", "cz", "k", "pw", "px", "py", "pz", "qw", "qx", "qy", "qz", "rw", "rx", "ry", "rz"];
pub const A: usize = 0;
pub const B: usize = 3;
pub const K: usize = 9;
pub const P: usize = 10;
pub const Q: usize = 14;

#[derive(Clone, Debug)]
pub struct Term {
    c: i64,
    v: Vec<usize>,
}
/// name -> components -> terms
pub struct Polys(HashMap<String, Vec<Vec<Term>>>);
impl Polys {
    pub fn new(rows: &[Row]) -> Polys {
        let mut m: HashMap<String, Vec<Vec<Term>>> = HashMap::new();
        for r in rows {
            let e = m.entry(r.str("fn").to_string()).or_default();
            assert!(e.len() as i64 == r.int("comp") && r.int("of") > r.int("comp"));
            e.push(
                r.list("terms")
                    .iter()
                    .map(|t| Term { c: t.rec().int("c"), v: t.rec().list("v").iter().map(|n| NAMES.iter().position(|x| *x == n.str()).unwrap()).collect() })
                    .collect(),
            );
        }
        Polys(m)
    }
    pub fn get(&self, name: &str) -> &[Vec<Term>] {
        self.0.get(name).unwrap_or_else(|| crate::die(&format!("no polynomial {name}")))
    }
}
/// Value, sum of the positive terms, sum of the negative terms, largest term (integers)
pub fn exact(terms: &[Term], x: &[i128; 22]) -> (i128, i128, i128, i128) {
    let (mut pos, mut neg, mut most) = (0i128, 0i128, 0i128);
    for t in terms {
        let v = t.v.iter().fold(t.c as i128, |p, i| p * x[*i]);
        if v > 0 {
            pos += v
        } else {
            neg += v
        }
        // the product without the coefficient has to fit as well
        most = most.max(v.abs()).max((v / t.c as i128).abs());
    }
    (pos + neg, pos, neg, most)
}
/// Value, and sum of the magnitudes of the terms (numbers)
#[inline]
pub fn real(terms: &[Term], x: &[f64; 22]) -> (f64, f64) {
    let (mut sum, mut mag) = (0.0, 0.0);
    for t in terms {
        let v = t.v.iter().fold(t.c as f64, |p, i| p * x[*i]);
        sum += v;
        mag += v.abs();
    }
    (sum, mag)
}
/// Is r the value of the polynomial, up to f32 rounding of its terms and sums in any order? (Everything is if they overflow.)
#[inline]
pub fn near(terms: &[Term], x: &[f64; 22], r: f32) -> bool {
    let (want, mag) = real(terms, x);
    if !(mag < 3.3e38) {
        return true;
    }
    let degree = terms.iter().map(|t| t.v.len()).max().unwrap_or(0) as f64;
    let n = terms.len() as f64 + degree;
    (r as f64 - want).abs() <= mag * n * 2f64.powi(-24) * 1.01 + if degree > 1.0 { n * 2e-45 } else { 0.0 }
}
