//! Records statistics of samples of all magnitudes, and trimming iterators, for spec/SamplesTrace.tla.
//! --mode: moments or trim; --events: how many; --trace: where to write.
use harness::delicate::{num, partner};
use harness::{out::Report, sweep, Args, Rng};
use micromath::statistics::{trim, Mean, StdDev, Trim, Variance};
use micromath::F32;
use std::fmt::Write;

#[derive(Clone, Copy, Debug)]
struct Tagged(f32, u32);
impl From<Tagged> for f32 {
    fn from(t: Tagged) -> f32 {
        t.0
    }
}

/// finite samples with exponents around a common one, or all over the range
fn samples(g: &mut Rng, n: usize) -> Vec<f32> {
    let e = if g.below(6) == 0 { g.range(1, 190) } else { g.range(87, 167) };
    let kind = g.below(9);
    let base = f32::from_bits((e as u32) << 23 | g.u32() & 0x807f_ffff);
    let unit = f32::from_bits((e as u32) << 23);
    let mut x: Vec<f32> = (0..n)
        .map(|_| match kind {
            // the same, and next to it
            0 => base,
            1 => f32::from_bits((base.to_bits() as i64 + g.range(-4, 4)) as u32),
            // few bits: sums are exact
            2 => g.range(-30, 30) as f32 * unit,
            3 => g.range(0, 255) as f32 * unit,
            // similar, of one or both signs
            4 => f32::from_bits(((e + g.range(-1, 1)).clamp(0, 192) as u32) << 23 | g.u32() & 0x807f_ffff),
            5 => f32::from_bits(((e + g.range(-1, 1)).clamp(0, 192) as u32) << 23 | g.u32() & 0x007f_ffff),
            // of all sizes
            6 => f32::from_bits(((e + g.range(-40, 40)).clamp(0, 192) as u32) << 23 | g.u32() & 0x807f_ffff),
            // a common part and a rest
            7 => base + f32::from_bits(((e - g.range(8, 10)).clamp(0, 192) as u32) << 23 | g.u32() & 0x807f_ffff),
            _ => {
                let y = partner(g, base);
                if y.abs() < 1e20 { y } else { base }
            }
        })
        .collect();
    if g.below(3) == 0 {
        let i = g.below(n as u64) as usize;
        x[i] = (x[i] + g.pick(&[0.0, unit])) * g.pick(&[8.0, -3.0, 100.0, 0.0]);
    }
    x.iter_mut().for_each(|v| {
        if v.abs() > 3e19 {
            *v = 0.0
        }
    });
    x
}
fn mean(form: &str, x: &[f32]) -> f32 {
    let mut i = 0;
    match form {
        "cloned" => x.iter().cloned().mean(),
        "vec" => x.to_vec().into_iter().mean(),
        "chain" => x[..1].iter().chain(x[1..].iter()).copied().mean(),
        "f32" => x.iter().map(|v| F32(*v).0).mean(),
        _ => std::iter::from_fn(|| {
            i += 1;
            x.get(i - 1).copied()
        })
        .mean(),
    }
}
fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let count: u64 = args.opt("events").map_or(4_000, |s| s.parse().unwrap()) * if args.thorough() { 20 } else { 1 };
    let trim_mode = args.req("mode") == "trim";
    let mut g = Rng::new(args.seed(), 929);
    let mut text = String::new();
    let mut j = 0;
    while j < count {
        let n = if trim_mode { g.range(2, 7) } else if g.below(10) == 0 { g.range(7, 40) } else { g.range(1, 6) } as usize;
        let x = samples(&mut g, n);
        writeln!(text, "{{\"op\":\"samples\",\"xs\":[{}]}}", x.iter().map(|v| num(*v)).collect::<Vec<_>>().join(",")).unwrap();
        j += 1;
        if !trim_mode {
            let form = g.pick(&["cloned", "vec", "chain", "f32", "fn"]);
            let f = g.below(2) == 0;
            let wrapped: Vec<F32> = x.iter().map(|v| F32(*v)).collect();
            let got = sweep::guard(|| if f { (mean(form, &x), x.variance(), x.stddev()) } else { (mean(form, &x), wrapped.variance(), wrapped.stddev()) });
            let Some((m, v, s)) = got else {
                rep.violation(format!("statistics of {x:?} panic"));
                break;
            };
            writeln!(text, "{{\"op\":\"mean\",\"r\":{}}}", num(m)).unwrap();
            j += 1;
            if n > 1 {
                writeln!(text, "{{\"op\":\"variance\",\"r\":{}}}\n{{\"op\":\"stddev\",\"r\":{}}}", num(v), num(s)).unwrap();
                j += 2;
            }
            continue;
        }
        let tags: Vec<Tagged> = x.iter().enumerate().map(|(i, v)| Tagged(*v, i as u32 + 1)).collect();
        let slice: &[Tagged] = &tags;
        // a threshold at the distance of one of the samples, now and then
        let m = x.iter().map(|v| *v as f64).sum::<f64>() / n as f64;
        let sd = (x.iter().map(|v| (*v as f64 - m).powi(2)).sum::<f64>() / (n as f64 - 1.0)).sqrt();
        let mut its: Vec<trim::Iter<Tagged>> = vec![];
        for _ in 0..(3 * n + 3) {
            j += 1;
            if its.is_empty() || (its.len() < 3 && g.below(4) == 0) {
                let form = g.pick(&["trim", "trim_at", "trim_at", "new", "new"]);
                let edge = ((x[g.below(n as u64) as usize] as f64 - m).abs() / sd) as f32;
                let z = match g.below(8) {
                    _ if form == "trim" => 2.0,
                    0..=3 => edge * g.pick(&[0.9, 0.95, 1.05, 1.1, 1.1]),
                    4 | 5 => g.range(0, 40) as f32 / 8.0,
                    6 => f32::from_bits(g.u32()),
                    _ => g.pick(&[0.0, -0.0, -1.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1e-45, 1e30, 1.001]),
                };
                match sweep::guard(|| match form {
                    "trim" => Trim::trim(&slice),
                    "new" => trim::Iter::new(slice, z),
                    _ => Trim::trim_at(&slice, z),
                }) {
                    Some(it) => its.push(it),
                    None => {
                        rep.violation(format!("{form} of {x:?} panics"));
                        break;
                    }
                }
                writeln!(text, "{{\"op\":\"trim\",\"form\":\"{form}\",\"id\":{},\"z\":{}}}", its.len(), num(z)).unwrap();
            } else {
                let k = g.below(its.len() as u64) as usize;
                match sweep::guard(|| its[k].next()) {
                    Some(r) => writeln!(text, "{{\"op\":\"next\",\"id\":{},\"p\":{}}}", k + 1, r.map_or(0, |t| t.1)).unwrap(),
                    None => {
                        rep.violation(format!("next() of trim of {x:?} panics"));
                        break;
                    }
                }
            }
        }
    }
    rep.count("exact_statistics", count);
    std::fs::write(args.req("trace"), &text).unwrap_or_else(|e| harness::die(&format!("{e}")));
    rep.finish()
}
