//! Records calls of algebraic functions on numbers of all magnitudes, for spec/ExactTrace.tla.
//! --fns: which; --events: how many; --trace: where to write.
use harness::delicate::{num, operand, partner};
use harness::{out::Report, show, sweep, Args, Rng};
use micromath::{F32Ext, F32};
use std::fmt::Write;

fn unary(f: &str, ext: bool, x: f32) -> f32 {
    macro_rules! call {
        ($m:ident) => {
            if ext {
                F32Ext::$m(x)
            } else {
                F32(x).$m().0
            }
        };
    }
    match f {
        "trunc" => call!(trunc),
        "fract" => call!(fract),
        "floor" => call!(floor),
        "ceil" => call!(ceil),
        "round" => call!(round),
        "sqrt" => call!(sqrt),
        "inv" => call!(inv),
        "recip" => call!(recip),
        "invsqrt" => call!(invsqrt),
        _ => harness::die(f),
    }
}
fn binary(f: &str, ext: bool, x: f32, y: f32) -> f32 {
    macro_rules! call {
        ($m:ident) => {
            if ext {
                F32Ext::$m(x, y)
            } else {
                F32(x).$m(F32(y)).0
            }
        };
    }
    match f {
        "hypot" => call!(hypot),
        "rem_euclid" => call!(rem_euclid),
        _ => call!(div_euclid),
    }
}
/// integers, halves and quarters and their neighbours, and numbers of all magnitudes
fn argument(g: &mut Rng, f: &str) -> f32 {
    match f {
        "trunc" | "fract" | "floor" | "ceil" | "round" if g.below(3) > 0 => {
            let k = g.below(26);
            let v = g.range(-(1 << k), 1 << k) as f32 / g.pick(&[1.0f32, 1.0, 2.0, 4.0, 8.0]);
            let d = g.range(-2, 2);
            if v == 0.0 { v } else { f32::from_bits((v.to_bits() as i64 + d) as u32) }
        }
        "sqrt" | "invsqrt" if g.below(10) > 0 => operand(g).abs(),
        _ => operand(g),
    }
}
fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let count: u64 = args.opt("events").map_or(6_000, |s| s.parse().unwrap()) * if args.thorough() { 20 } else { 1 };
    let mut g = Rng::new(args.seed(), 733);
    let list = args.req("fns");
    let fns: Vec<&str> = list.split(',').collect();
    let mut text = String::new();
    let mut acc = 0f32;
    for j in 0..count {
        let f = g.pick(&fns);
        let ext = g.below(2) == 0;
        // chains of calls, now and then
        let chained = j > 0 && !acc.is_nan() && acc != 0.0 && acc.is_finite() && g.below(6) == 0;
        let mut x = if chained { acc } else { argument(&mut g, f) };
        let mut more = String::new();
        let r = match f {
            "powi" => {
                // numbers near 1 for large exponents
                let n = if g.below(3) == 0 { g.range(-40, 40) } else { g.range(-6, 6) } as i32;
                if !chained && g.below(2) == 0 {
                    let top = 2f32.powf(126.0 / n.abs().max(1) as f32);
                    let b = (1.0 + g.unit() as f32 * (top.min(1e6) - 1.0)) * g.pick(&[1.0f32, -1.0]);
                    x = if g.below(2) == 0 { b } else { 1.0 / b };
                }
                write!(more, ",\"n\":{n}").unwrap();
                sweep::guard(|| if ext { F32Ext::powi(x, n) } else { F32(x).powi(n).0 })
            }
            "hypot" | "rem_euclid" | "div_euclid" => {
                let y = match g.below(3) {
                    // nearly multiples
                    0 if x.is_finite() && x != 0.0 => {
                        let q = x / g.range(1, 2000) as f32;
                        let d = g.range(-1, 1);
                        f32::from_bits((q.to_bits() as i64 + d).clamp(0, u32::MAX as i64) as u32)
                    }
                    _ => partner(&mut g, x),
                };
                write!(more, ",\"y\":{}", num(y)).unwrap();
                sweep::guard(|| binary(f, ext, x, y))
            }
            _ => sweep::guard(|| unary(f, ext, x)),
        };
        let Some(r) = r else {
            rep.violation(format!("{f} panics for {}{more}", show(x)));
            break;
        };
        writeln!(text, "{{\"fn\":\"{f}\",\"c\":{},\"x\":{}{more},\"r\":{}}}", chained as u8, num(x), num(r)).unwrap();
        acc = r;
    }
    rep.count("exact_calls", count);
    std::fs::write(args.req("trace"), &text).unwrap_or_else(|e| harness::die(&format!("{e}")));
    rep.finish()
}
