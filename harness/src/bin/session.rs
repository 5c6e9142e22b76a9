//! Records histories of scalar calls on numbers that are exact (quarters of integers), for SessionTrace.
//! --ops: the operations to choose from; --events: how many; --trace: where to write.
use harness::{out::Report, sweep, Args, Rng};
use micromath::{F32Ext, F32};
use std::cmp::Ordering;
use std::fmt::Write;

const BINARY: [&str; 8] = ["add", "sub", "mul", "div", "rem", "copysign", "rem_euclid", "div_euclid"];
const FORMS: [&str; 12] = ["FF", "Ff", "fF", "FF=", "Ff=", "fF=", "rFF", "rFf", "rfF", "rFF=", "rFf=", "rfF="];
const LIM: i64 = 1 << 21;

macro_rules! arith {
    ($form:expr, $a:expr, $b:expr, $op:tt, $asg:tt) => {{
        let (a, b): (f32, f32) = ($a, $b);
        match $form {
            "FF" => (F32(a) $op F32(b)).0,
            "Ff" => (F32(a) $op b).0,
            "fF" => (a $op F32(b)).0,
            "FF=" => { let mut t = F32(a); t $asg F32(b); t.0 }
            "Ff=" => { let mut t = F32(a); t $asg b; t.0 }
            _ => { let mut t = a; t $asg F32(b); t }
        }
    }};
}
fn binary(op: &str, form: &str, acc: f32, v: f32) -> f32 {
    let (f, a, b) = match form.strip_prefix('r') {
        Some(f) => (f, v, acc),
        None => (form, acc, v),
    };
    let ext = f.starts_with('f');
    match op {
        "add" => arith!(f, a, b, +, +=),
        "sub" => arith!(f, a, b, -, -=),
        "mul" => arith!(f, a, b, *, *=),
        "div" => arith!(f, a, b, /, /=),
        "rem" => match f {
            "FF" => (F32(a) % F32(b)).0,
            "Ff" => (F32(a) % b).0,
            "FF=" => {
                let mut t = F32(a);
                t %= F32(b);
                t.0
            }
            "Ff=" => {
                let mut t = F32(a);
                t %= b;
                t.0
            }
            _ => (a % F32(b)).0,
        },
        "copysign" if ext => F32Ext::copysign(a, b),
        "copysign" => F32(a).copysign(F32(b)).0,
        "rem_euclid" if ext => F32Ext::rem_euclid(a, b),
        "rem_euclid" => F32(a).rem_euclid(F32(b)).0,
        "div_euclid" if ext => F32Ext::div_euclid(a, b),
        _ => F32(a).div_euclid(F32(b)).0,
    }
}
fn unary(op: &str, ext: bool, a: f32) -> f32 {
    use num_traits::{One, Zero};
    match op {
        "neg" => (-F32(a)).0,
        "abs" if ext => F32Ext::abs(a),
        "abs" => F32(a).abs().0,
        "signum" if ext => F32Ext::signum(a),
        "signum" => F32(a).signum().0,
        "trunc" if ext => F32Ext::trunc(a),
        "trunc" => F32(a).trunc().0,
        "fract" if ext => F32Ext::fract(a),
        "fract" => F32(a).fract().0,
        "floor" if ext => F32Ext::floor(a),
        "floor" => F32(a).floor().0,
        "ceil" if ext => F32Ext::ceil(a),
        "ceil" => F32(a).ceil().0,
        "round" if ext => F32Ext::round(a),
        "round" => F32(a).round().0,
        "bits" => F32::from_bits(F32(a).to_bits()).0,
        "f32" => f32::from(F32::from(a)),
        "text" if ext => format!("{}", F32(a)).parse::<F32>().map_or(f32::NAN, |r| r.0),
        "text" => format!("{:e}", F32(a)).parse::<F32>().map_or(f32::NAN, |r| r.0),
        "zero_add" if ext => (F32::zero() + F32(a)).0,
        "zero_add" => (F32(a) + F32::zero()).0,
        "one_mul" if ext => (F32::one() * F32(a)).0,
        "one_mul" => (F32(a) * F32::one()).0,
        _ => harness::die(&format!("unknown operation {op}")),
    }
}
fn quarters(n: i64) -> f32 {
    n as f32 / 4.0
}

fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let list = args.req("ops");
    let ops: Vec<&str> = list.split(',').collect();
    let count: u64 = args.opt("events").map_or(10_000, |s| s.parse().unwrap()) * if args.thorough() { 10 } else { 1 };
    let mut g = Rng::new(args.seed(), 177);
    let mut acc: i64 = 0;
    let mut text = String::new();
    let value = |g: &mut Rng, bits: u64| {
        let k = g.below(bits + 1);
        let v = g.range(0, 1 << k);
        let v = if g.below(3) == 0 { v / 4 * 4 } else { v };
        if g.next() & 1 == 0 {
            v
        } else {
            -v
        }
    };
    let mut done = 0;
    while done < count {
        let op = if g.below(if ops.len() < 4 { 2 } else { 9 }) == 0 { "set" } else { g.pick(&ops) };
        let form = FORMS[g.below(12) as usize];
        let a = quarters(acc);
        let got: Option<f32>;
        let mut fields = String::new();
        if op == "set" {
            got = Some(quarters(value(&mut g, 12)));
        } else if BINARY.contains(&op) {
            let r = form.starts_with('r');
            let mut v = value(&mut g, 14);
            let divides = |v: i64| {
                let (n, d) = if r { (v, acc) } else { (acc, v) };
                d != 0 && (4 * n) % d == 0 && (4 * n / d).abs() < LIM
            };
            match op {
                "add" | "sub" => {}
                "mul" => {
                    if acc * v % 4 != 0 {
                        v *= 4;
                    }
                    if (acc * v / 4).abs() >= LIM {
                        v = g.range(-1, 1) * 4;
                    }
                }
                "div" => {
                    v = (0..40).map(|i| if i < 30 { value(&mut g, 8) * if r { acc.abs().max(1) } else { 1 } } else { [4, -4, 1, 8, -2, 16, 2, -8, -1, -16][i - 30] }).find(|v| v.abs() < LIM && divides(*v)).unwrap_or(0);
                    if !divides(v) {
                        continue;
                    }
                }
                _ => {
                    if v == 0 || (r && acc == 0) {
                        continue;
                    }
                }
            }
            if (acc + v).abs() >= LIM || (acc - v).abs() >= LIM {
                continue;
            }
            got = sweep::guard(|| binary(op, form, a, quarters(v)));
            write!(fields, "\"form\":\"{form}\",\"v\":{v},").unwrap();
        } else {
            match op {
                "sum" | "product" => {
                    let len = g.below(6);
                    let mut p = acc;
                    let xs: Vec<i64> = (0..len)
                        .map(|_| {
                            let x = if op == "sum" { value(&mut g, 10) } else { g.pick(&[4, -4, 8, -8, 12, 2, 0, 20]) };
                            let x = if op == "product" && (p * x % 4 != 0 || (p * x / 4).abs() >= LIM) { 4 } else { x };
                            if op == "product" {
                                p = p * x / 4;
                            }
                            x
                        })
                        .collect();
                    let items = std::iter::once(acc).chain(xs.iter().copied()).map(|n| F32(quarters(n)));
                    got = sweep::guard(|| if op == "sum" { items.sum::<F32>().0 } else { items.product::<F32>().0 });
                    write!(fields, "\"xs\":{xs:?},").unwrap();
                }
                "mul_add" => {
                    let (mut v, w) = (value(&mut g, 9), value(&mut g, 12));
                    if acc * v % 4 != 0 {
                        v *= 4;
                    }
                    if (acc * v / 4).abs() >= LIM {
                        continue;
                    }
                    got = sweep::guard(|| if form.starts_with('f') { F32Ext::mul_add(a, quarters(v), quarters(w)) } else { F32(a).mul_add(F32(quarters(v)), F32(quarters(w))).0 });
                    write!(fields, "\"v\":{v},\"w\":{w},").unwrap();
                }
                "powi" => {
                    let n = g.below(10) as i32;
                    if acc % 4 != 0 || ((acc / 4) as f64).powi(n).abs() > 250_000.0 {
                        continue;
                    }
                    got = sweep::guard(|| if form.starts_with('f') { F32Ext::powi(a, n) } else { F32(a).powi(n).0 });
                    write!(fields, "\"n\":{n},").unwrap();
                }
                "cmp" => {
                    let v = match g.below(4) {
                        0 => acc,
                        1 => acc + 1,
                        2 => -acc,
                        _ => value(&mut g, 16),
                    };
                    let b = quarters(v);
                    let r = sweep::guard(|| match form.trim_start_matches('r').trim_end_matches('=') {
                        "FF" => (F32(a).partial_cmp(&F32(b)), F32(a) == F32(b)),
                        "Ff" => (F32(a).partial_cmp(&b), F32(a) == b),
                        _ => (a.partial_cmp(&F32(b)), a == F32(b)),
                    });
                    let res = match r.and_then(|r| r.0) {
                        Some(Ordering::Less) => -1,
                        Some(Ordering::Equal) => 0,
                        Some(Ordering::Greater) => 1,
                        None => 2,
                    };
                    write!(fields, "\"form\":\"{form}\",\"v\":{v},\"res\":{res},\"eq\":{},", r.is_some_and(|r| r.1) as i32).unwrap();
                    got = Some(a);
                }
                "conv" => {
                    let (n, r) = match g.below(4) {
                        0 => {
                            let n = g.u32() as i8;
                            (n as i64, sweep::guard(|| F32::from(n).0))
                        }
                        1 => {
                            let n = g.u32() as u8;
                            (n as i64, sweep::guard(|| F32::from(n).0))
                        }
                        2 => {
                            let n = g.u32() as i16;
                            (n as i64, sweep::guard(|| F32::from(n).0))
                        }
                        _ => {
                            let n = g.u32() as u16;
                            (n as i64, sweep::guard(|| F32::from(n).0))
                        }
                    };
                    got = r;
                    write!(fields, "\"n\":{n},").unwrap();
                }
                _ => got = sweep::guard(|| unary(op, form.starts_with('f'), a)),
            }
        }
        let out = match got {
            Some(r) if (r * 4.0).trunc() == r * 4.0 && r.abs() < 1e8 => (r * 4.0) as i64,
            _ => {
                rep.violation(format!("event {done}: {op} of {a:?} with {{{fields}}} gives {got:?}"));
                0
            }
        };
        writeln!(text, "{{\"op\":\"{op}\",{fields}\"out\":{out}}}").unwrap();
        if done < 10 {
            rep.sample(format!("{op} {fields} {acc} -> {out} (quarters)"));
        }
        acc = out;
        if acc.abs() >= LIM {
            break; // SessionTrace rejects it
        }
        done += 1;
        rep.count(op, 1);
    }
    std::fs::write(args.req("trace"), text).unwrap_or_else(|e| harness::die(&e.to_string()));
    rep.finish()
}
