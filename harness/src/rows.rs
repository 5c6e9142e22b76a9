//! Reads the rows that TLC wrote (JSON lines, whose values are integers, strings, or lists of those).
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Int(i64),
    Str(String),
    List(Vec<Val>),
    Rec(Row),
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Row(pub HashMap<String, Val>);

impl Row {
    pub fn has(&self, k: &str) -> bool {
        self.0.contains_key(k)
    }
    pub fn int(&self, k: &str) -> i64 {
        match self.0.get(k) {
            Some(Val::Int(n)) => *n,
            _ => crate::die(&format!("row without integer {k}: {self:?}")),
        }
    }
    pub fn str(&self, k: &str) -> &str {
        match self.0.get(k) {
            Some(Val::Str(s)) => s,
            _ => crate::die(&format!("row without string {k}: {self:?}")),
        }
    }
    pub fn list(&self, k: &str) -> &[Val] {
        match self.0.get(k) {
            Some(Val::List(s)) => s,
            _ => crate::die(&format!("row without list {k}: {self:?}")),
        }
    }
    pub fn ints(&self, k: &str) -> Vec<i64> {
        self.list(k).iter().map(|v| v.int()).collect()
    }
}
impl Val {
    pub fn int(&self) -> i64 {
        match self {
            Val::Int(n) => *n,
            v => crate::die(&format!("not an integer: {v:?}")),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            Val::Str(n) => n,
            v => crate::die(&format!("not a string: {v:?}")),
        }
    }
    pub fn list(&self) -> &[Val] {
        match self {
            Val::List(n) => n,
            v => crate::die(&format!("not a list: {v:?}")),
        }
    }
    pub fn rec(&self) -> &Row {
        match self {
            Val::Rec(n) => n,
            v => crate::die(&format!("not a record: {v:?}")),
        }
    }
}

struct P<'a>(&'a [u8], usize);
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.1 < self.0.len() && self.0[self.1].is_ascii_whitespace() {
            self.1 += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.0.get(self.1).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) {
        if self.peek() != c {
            crate::die(&format!("JSON: expected {} at {}", c as char, self.1));
        }
        self.1 += 1;
    }
    fn string(&mut self) -> String {
        self.eat(b'"');
        let mut s = Vec::new();
        while self.0[self.1] != b'"' {
            if self.0[self.1] == b'\\' {
                self.1 += 1;
            }
            s.push(self.0[self.1]);
            self.1 += 1;
        }
        self.1 += 1;
        String::from_utf8(s).unwrap()
    }
    fn val(&mut self) -> Val {
        match self.peek() {
            b'"' => Val::Str(self.string()),
            b'[' => {
                self.eat(b'[');
                let mut v = Vec::new();
                while self.peek() != b']' {
                    v.push(self.val());
                    if self.peek() == b',' {
                        self.1 += 1;
                    }
                }
                self.eat(b']');
                Val::List(v)
            }
            b'{' => Val::Rec(self.rec()),
            b't' => {
                self.1 += 4;
                Val::Int(1)
            }
            b'f' => {
                self.1 += 5;
                Val::Int(0)
            }
            _ => {
                let st = self.1;
                while self.1 < self.0.len() && (self.0[self.1] == b'-' || self.0[self.1].is_ascii_digit()) {
                    self.1 += 1;
                }
                let s = std::str::from_utf8(&self.0[st..self.1]).unwrap();
                Val::Int(s.parse().unwrap_or_else(|_| crate::die(&format!("JSON: bad integer {s:?} at {st}"))))
            }
        }
    }
    fn rec(&mut self) -> Row {
        let mut r = Row::default();
        self.eat(b'{');
        while self.peek() != b'}' {
            let k = self.string();
            self.eat(b':');
            let v = self.val();
            r.0.insert(k, v);
            if self.peek() == b',' {
                self.1 += 1;
            }
        }
        self.eat(b'}');
        r
    }
}

pub fn load(path: &str) -> Vec<Row> {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| crate::die(&format!("{path}: {e}")));
    let rows: Vec<Row> = text.lines().filter(|l| !l.trim().is_empty()).map(|l| P(l.as_bytes(), 0).rec()).collect();
    if rows.is_empty() {
        crate::die(&format!("{path}: no rows"));
    }
    rows
}
