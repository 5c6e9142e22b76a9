//! The texts of spec/Text.tla: its rows, its scanner, and random texts.
use crate::{rows::Row, Rng};
use std::collections::HashMap;

pub struct Texts {
    to: HashMap<(String, char), String>,
    ok: HashMap<String, bool>,
    pub symbols: Vec<char>,
    pub list: Vec<(String, bool)>,
}
impl Texts {
    pub fn new(table: &[Row]) -> Texts {
        let mut t = Texts { to: HashMap::new(), ok: HashMap::new(), symbols: vec![], list: vec![] };
        for r in table.iter().filter(|r| r.str("fn") == "step") {
            let c = r.str("c").chars().next().unwrap();
            t.to.insert((r.str("q").into(), c), r.str("to").into());
            t.ok.insert(r.str("q").into(), r.int("ok") == 1);
            if !t.symbols.contains(&c) {
                t.symbols.push(c);
            }
        }
        for r in table.iter().filter(|r| r.str("fn") == "text") {
            t.list.push((r.str("t").into(), t.ok[r.str("q")]));
        }
        assert!(t.list.len() > 1000 && t.symbols.len() == 30);
        t
    }
    /// The state after reading the text; symbols that the specification does not mention are bad
    pub fn scan(&self, text: &str) -> &str {
        text.chars().fold("start", |q, c| self.to.get(&(q.to_string(), c)).map_or("bad", |q| q.as_str()))
    }
    pub fn valid(&self, text: &str) -> bool {
        self.ok[self.scan(text)]
    }
    /// A random walk of the scanner, which goes wrong now and then
    pub fn random(&self, g: &mut Rng) -> String {
        let mut s = String::new();
        let mut q = "start".to_string();
        let most = if g.below(10) == 0 { 120 } else { 24 };
        let len = g.below(most);
        for _ in 0..len {
            let mut c = g.pick(&self.symbols);
            for _ in 0..40 {
                if self.to[&(q.clone(), c)] != "bad" && (c.is_ascii_digit() || g.below(3) == 0) {
                    break;
                }
                c = g.pick(&self.symbols);
            }
            let next = &self.to[&(q.clone(), c)];
            if next == "bad" && g.below(8) != 0 {
                break;
            }
            q = next.clone();
            s.push(c);
        }
        // one or two wrong symbols anywhere, first and last ones above all
        if g.below(4) == 0 {
            let mut t: Vec<char> = s.chars().collect();
            for _ in 0..g.range(1, 2) {
                let len = t.len() as u64;
                let at = match g.below(3) {
                    0 => g.below(2).min(len),
                    1 => len,
                    _ => g.below(len + 1),
                } as usize;
                let c = g.pick(&self.symbols);
                let sign = g.pick(&['+', '-', '.', 'e', '_', ' ', '0']);
                match g.below(5) {
                    0 | 1 => t.insert(at, if g.below(2) == 0 { sign } else { c }),
                    2 if at < t.len() => t[at] = c,
                    3 if at < t.len() => drop(t.remove(at)),
                    _ if at < t.len() => t.insert(at, t[at]),
                    _ => t.push(sign),
                }
            }
            return t.into_iter().collect();
        }
        match g.below(40) {
            0 => format!(" {s}"),
            1 => format!("{s} "),
            2 => format!("{s}f32"),
            3 => format!("{s}\u{661}"),
            4 => format!("{s}\0"),
            _ => s,
        }
    }
}
/// Numbers for formatting: special ones, integers, decimals, all signs and exponents
pub fn number(j: u64, seed: u64) -> f32 {
    let mut g = Rng::new(seed.wrapping_add(j << 8), 33);
    match j % 8 {
        0 => f32::from_bits((j as u32 >> 3 & 0x1ff) << 23 | [0, 1, 0x7f_ffff, 0x40_0000][(j >> 12) as usize & 3]),
        1 => (g.range(-100_000, 100_000) as f32) / g.pick(&[1.0f32, 10.0, 100.0, 1000.0, 4.0]),
        2 => f32::from_bits(g.u32() & 0x807f_ffff),
        3 => (g.range(1, 9) as f32) * 10f32.powi(g.range(-45, 38) as i32),
        _ => f32::from_bits(g.u32()),
    }
}
