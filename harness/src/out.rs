//! What a run covered, and what it found, printed as one JSON object.
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Report {
    pub counts: BTreeMap<String, u64>,
    pub violations: Vec<String>,
    pub samples: Vec<String>,
    pub nviol: u64,
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Report {
    pub fn count(&mut self, key: &str, n: u64) {
        *self.counts.entry(key.to_string()).or_insert(0) += n;
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 12 {
            self.samples.push(s);
        }
    }
    pub fn violation(&mut self, s: String) {
        self.nviol += 1;
        if self.violations.len() < 20 {
            self.violations.push(s);
        }
    }
    /// Print and exit: 0 without, 1 with violations
    pub fn finish(self) -> ! {
        let list = |v: &[String]| v.iter().map(|s| quote(s)).collect::<Vec<_>>().join(", ");
        let counts = self.counts.iter().map(|(k, v)| format!("{}: {}", quote(k), v)).collect::<Vec<_>>().join(", ");
        println!(
            "{{\"counts\": {{{}}}, \"nviolations\": {}, \"violations\": [{}], \"samples\": [{}]}}",
            counts,
            self.nviol,
            list(&self.violations),
            list(&self.samples)
        );
        std::process::exit(if self.nviol > 0 { 1 } else { 0 })
    }
}
