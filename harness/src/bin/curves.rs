//! Records calls of the approximations of elementary functions, for spec/CurvesTrace.tla.
//! --fns: which; --events: how many; --trace: where to write.
use harness::delicate::{num, operand, partner};
use harness::{out::Report, show, sweep, Args, Rng};
use micromath::{F32Ext, F32};
use std::fmt::Write;

fn unary(f: &str, ext: bool, x: f32) -> f32 {
    macro_rules! call {
        ($m:ident) => {
            if ext {
                F32Ext::$m(x)
            } else {
                F32(x).$m().0
            }
        };
    }
    match f {
        "sin" => call!(sin),
        "cos" => call!(cos),
        "tan" => call!(tan),
        "atan" => call!(atan),
        "atan_norm" => call!(atan_norm),
        "asin" => call!(asin),
        "acos" => F32Ext::acos(x),
        "exp" => call!(exp),
        "cosh" => F32(x).cosh().0,
        "ln" => call!(ln),
        "log2" => call!(log2),
        "log10" => call!(log10),
        _ => harness::die(f),
    }
}
fn binary(f: &str, ext: bool, x: f32, y: f32) -> f32 {
    match (f, ext) {
        ("atan2", true) => F32Ext::atan2(x, y),
        ("atan2", _) => F32(x).atan2(F32(y)).0,
        ("atan2_norm", _) => F32Ext::atan2_norm(x, y),
        ("log", true) => F32Ext::log(x, y),
        ("log", _) => F32(x).log(F32(y)).0,
        ("powf", true) => F32Ext::powf(x, y),
        ("powf", _) => F32(x).powf(F32(y)).0,
        _ => harness::die(f),
    }
}
/// up to d numbers away
fn near(g: &mut Rng, x: f64, d: i64) -> f32 {
    let v = x as f32;
    if v == 0.0 || !v.is_finite() { v } else { f32::from_bits((v.to_bits() as i64 + g.range(-d, d)) as u32) }
}
fn sign(g: &mut Rng) -> f64 {
    g.pick(&[1.0, -1.0])
}
/// a number whose exponent is in a range
fn sized(g: &mut Rng, lo: i64, hi: i64) -> f32 {
    f32::from_bits((127 + g.range(lo, hi)) as u32 * 0x80_0000 | g.u32() & 0x807f_ffff)
}
fn argument(g: &mut Rng, f: &str) -> f32 {
    use std::f64::consts::{FRAC_PI_4, LN_2};
    let any = g.below(12);
    if any == 0 {
        return operand(g);
    }
    match f {
        "sin" | "cos" | "tan" => match g.below(6) {
            0 | 1 => {
                let k = g.below(if f == "tan" { 14 } else { 23 });
                let (q, s) = (g.below(2 << k) as f64, sign(g));
                near(g, q * FRAC_PI_4 * s, 3)
            }
            2 => sized(g, -30, 13),
            3 => sized(g, -3, 8),
            4 if f != "tan" => sized(g, 12, 25),
            4 => sized(g, 10, 12),
            _ => {
                let s = sign(g);
                let c = g.pick(&[8192.0, 8388608.0, 1e-3, 0.5, 1.0, 2.0, 0.01]);
                near(g, c * s, 40)
            }
        },
        "asin" | "acos" => {
            let s = sign(g);
            match g.below(6) {
                0 => near(g, s, 60),
                1 => ((1.0 - g.unit() * 2f64.powi(-(g.below(24) as i32))) * s) as f32,
                2 => sized(g, -126, -1),
                3 => {
                    let v = g.pick(&[0.5f64, 0.75, 0.25]).sqrt();
                    near(g, v * s, 5)
                }
                _ => (g.unit() * 2.0 - 1.0) as f32,
            }
        }
        "exp" | "cosh" => {
            let s = sign(g);
            match g.below(6) {
                0 => {
                    let c = g.pick(&[87.2, 87.3, 87.336, 87.4, 88.0, 88.02969, 88.37626, 88.7, 88.722, 88.7228, 88.73, 89.4, 89.41, 104.0, 89.5]);
                    near(g, c * s, 50)
                }
                1 => {
                    let k = g.range(-127, 128) as f64;
                    near(g, k * LN_2, 3)
                }
                2 => {
                    let k = g.range(-254, 256) as f64;
                    near(g, k * LN_2 / 2.0, 3)
                }
                3 => sized(g, -40, 0),
                _ => ((g.unit() * 2.0 - 1.0) * 89.5) as f32,
            }
        }
        "ln" | "log2" | "log10" | "log" | "powf" => match g.below(6) {
            0 => near(g, 1.0, 9),
            1 => {
                let k = g.range(-126, 127);
                near(g, 2f64.powi(k as i32), 3)
            }
            2 => {
                let k = g.range(-37, 38);
                near(g, 10f64.powi(k as i32), 2)
            }
            3 => near(g, 1.0, 0x20_0000),
            _ => f32::from_bits(g.range(0x80_0000, 0x7f7f_ffff) as u32),
        },
        _ => match g.below(5) {
            0 => sized(g, -6, 6),
            1 => {
                let k = g.range(-126, 127);
                let s = sign(g);
                near(g, 2f64.powi(k as i32) * s, 3)
            }
            2 => ((g.unit() * 2.0 - 1.0) * 3.0) as f32,
            _ => operand(g),
        },
    }
}
fn second(g: &mut Rng, f: &str, x: f32) -> f32 {
    if f == "log" {
        return match g.below(5) {
            0 => near(g, 1.0, 0x10_0000),
            1 => g.pick(&[2.0, 10.0, 0.5, 3.0, 0.1, 1e30, 1e-30, std::f32::consts::E]),
            _ => argument(g, "log").abs(),
        };
    }
    if f != "powf" {
        let b = x.to_bits() as i64 & 0x7fff_ffff;
        return match g.below(4) {
            0 => partner(g, x),
            1 => operand(g),
            // a similar magnitude
            _ => f32::from_bits((b + g.range(-0x300_0000, 0x300_0000)).clamp(0, 0x7f80_0000) as u32 | g.u32() & 0x8000_0000),
        };
    }
    let l = (x.abs() as f64).ln();
    match g.below(8) {
        // powers of all magnitudes
        0 if l != 0.0 => (g.pick(&[-1.0, 1.0]) * g.unit() * 88.0 / l) as f32,
        1 if l != 0.0 => (g.range(-87, 88) as f64 / l).round() as f32,
        2 if l != 0.0 => {
            let t = g.pick(&[-103.0, -88.0, -87.3, -87.2, -86.9, 88.5, 88.72, 88.73, 89.0, 95.0]);
            near(g, t / l, 40)
        }
        3 => g.range(-6, 6) as f32,
        4 => g.range(-40, 40) as f32 / 4.0,
        5 => g.range(-40, 40) as f32,
        6 => {
            let k = g.below(27);
            g.range(-(1 << k), 1 << k) as f32 / g.pick(&[1.0f32, 2.0])
        }
        _ => operand(g),
    }
}
fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let count: u64 = args.opt("events").map_or(3_000, |s| s.parse().unwrap()) * if args.thorough() { 20 } else { 1 };
    let mut g = Rng::new(args.seed(), 577);
    let list = args.req("fns");
    let fns: Vec<&str> = list.split(',').collect();
    let mut text = String::new();
    let mut acc = 0f32;
    for j in 0..count {
        let f = g.pick(&fns);
        let ext = g.below(2) == 0;
        let chained = j > 0 && acc.is_finite() && acc != 0.0 && g.below(8) == 0;
        let mut x = if chained { acc } else { argument(&mut g, f) };
        let mut more = String::new();
        let r = if matches!(f, "atan2" | "atan2_norm" | "log" | "powf") {
            if f == "powf" && !chained && g.below(3) == 0 {
                x = -x;
            }
            let y = second(&mut g, f, x);
            write!(more, ",\"y\":{}", num(y)).unwrap();
            sweep::guard(|| binary(f, ext, x, y))
        } else {
            sweep::guard(|| unary(f, ext, x))
        };
        let Some(r) = r else {
            rep.violation(format!("{f} panics for {}{more}", show(x)));
            break;
        };
        writeln!(text, "{{\"fn\":\"{f}\",\"c\":{},\"x\":{}{more},\"r\":{}}}", chained as u8, num(x), num(r)).unwrap();
        acc = r;
    }
    rep.count("curve_calls", count);
    std::fs::write(args.req("trace"), &text).unwrap_or_else(|e| harness::die(&format!("{e}")));
    rep.finish()
}
