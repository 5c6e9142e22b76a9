//! C19, C20: the methods and programs of spec/Api.tla: F32Ext against F32 (--mode ext), and calls that never panic (--mode panics).
use harness::{out::Report, rows, same_bits, show, sweep, Args, Rng};
use micromath::{F32Ext, F32};

#[derive(Clone, Copy, PartialEq)]
enum Client {
    F,
    E,
}
type Call = fn(Client, f32, f32, f32, i32) -> f32;

macro_rules! methods {
    ($($name:literal: $f:expr, $e:expr;)*) => {
        /// name, calls
        const METHODS: &[(&str, Call)] = &[$(($name, |c, x, a, b, n| {
            fn f(x: f32, a: f32, b: f32, n: i32) -> f32 { let _ = (a, b, n); let f: fn(F32, F32, F32, i32) -> F32 = $f; f(F32(x), F32(a), F32(b), n).0 }
            fn e(x: f32, a: f32, b: f32, n: i32) -> f32 { let _ = (a, b, n); let e: fn(f32, f32, f32, i32) -> f32 = $e; e(x, a, b, n) }
            if c == Client::F { f(x, a, b, n) } else { e(x, a, b, n) }
        })),*];
        /// monomorphic loops over inputs
        fn sweep_of(name: &str, run: &Run) -> (u64, Vec<(u64, String)>) {
            match name {
                $($name => run.go($name, |x, a, b, n| { let f: fn(F32, F32, F32, i32) -> F32 = $f; f(F32(x), F32(a), F32(b), n).0 },
                                  |x, a, b, n| { let e: fn(f32, f32, f32, i32) -> f32 = $e; e(x, a, b, n) }),)*
                _ => harness::die(&format!("unknown method {name}")),
            }
        }
    };
}
methods! {
    "abs": |x, _, _, _| x.abs(), |x, _, _, _| F32Ext::abs(x);
    "acos": |x, _, _, _| F32(F32Ext::acos(x.0)), |x, _, _, _| F32Ext::acos(x);
    "asin": |x, _, _, _| x.asin(), |x, _, _, _| F32Ext::asin(x);
    "atan": |x, _, _, _| x.atan(), |x, _, _, _| F32Ext::atan(x);
    "atan_norm": |x, _, _, _| x.atan_norm(), |x, _, _, _| F32Ext::atan_norm(x);
    "atan2": |x, a, _, _| x.atan2(a), |x, a, _, _| F32Ext::atan2(x, a);
    "atan2_norm": |x, a, _, _| F32(F32Ext::atan2_norm(x.0, a.0)), |x, a, _, _| F32Ext::atan2_norm(x, a);
    "ceil": |x, _, _, _| x.ceil(), |x, _, _, _| F32Ext::ceil(x);
    "copysign": |x, a, _, _| x.copysign(a), |x, a, _, _| F32Ext::copysign(x, a);
    "cos": |x, _, _, _| x.cos(), |x, _, _, _| F32Ext::cos(x);
    "cosh": |x, _, _, _| x.cosh(), |x, _, _, _| F32(x).cosh().0;
    "div_euclid": |x, a, _, _| x.div_euclid(a), |x, a, _, _| F32Ext::div_euclid(x, a);
    "exp": |x, _, _, _| x.exp(), |x, _, _, _| F32Ext::exp(x);
    "floor": |x, _, _, _| x.floor(), |x, _, _, _| F32Ext::floor(x);
    "fract": |x, _, _, _| x.fract(), |x, _, _, _| F32Ext::fract(x);
    "hypot": |x, a, _, _| x.hypot(a), |x, a, _, _| F32Ext::hypot(x, a);
    "inv": |x, _, _, _| x.inv(), |x, _, _, _| F32Ext::inv(x);
    "invsqrt": |x, _, _, _| x.invsqrt(), |x, _, _, _| F32Ext::invsqrt(x);
    "ln": |x, _, _, _| x.ln(), |x, _, _, _| F32Ext::ln(x);
    "log": |x, a, _, _| x.log(a), |x, a, _, _| F32Ext::log(x, a);
    "log2": |x, _, _, _| x.log2(), |x, _, _, _| F32Ext::log2(x);
    "log10": |x, _, _, _| x.log10(), |x, _, _, _| F32Ext::log10(x);
    "mul_add": |x, a, b, _| x.mul_add(a, b), |x, a, b, _| F32Ext::mul_add(x, a, b);
    "powf": |x, a, _, _| x.powf(a), |x, a, _, _| F32Ext::powf(x, a);
    "powi": |x, _, _, n| x.powi(n), |x, _, _, n| F32Ext::powi(x, n);
    "recip": |x, _, _, _| x.recip(), |x, _, _, _| F32Ext::recip(x);
    "rem_euclid": |x, a, _, _| x.rem_euclid(a), |x, a, _, _| F32Ext::rem_euclid(x, a);
    "round": |x, _, _, _| x.round(), |x, _, _, _| F32Ext::round(x);
    "signum": |x, _, _, _| x.signum(), |x, _, _, _| F32Ext::signum(x);
    "sin": |x, _, _, _| x.sin(), |x, _, _, _| F32Ext::sin(x);
    "sin_cos.0": |x, _, _, _| x.sin_cos().0, |x, _, _, _| F32Ext::sin_cos(x).0;
    "sin_cos.1": |x, _, _, _| x.sin_cos().1, |x, _, _, _| F32Ext::sin_cos(x).1;
    "sqrt": |x, _, _, _| x.sqrt(), |x, _, _, _| F32Ext::sqrt(x);
    "tan": |x, _, _, _| x.tan(), |x, _, _, _| F32Ext::tan(x);
    "trunc": |x, _, _, _| x.trunc(), |x, _, _, _| F32Ext::trunc(x);
}

struct Run {
    ext: bool,
    thorough: bool,
    unary: bool,
    int: bool,
    seed: u64,
    spec: Vec<f32>,
}
impl Run {
    fn input(&self, j: u64) -> (f32, f32, f32, i32) {
        if self.unary {
            // with ext in the quick tier: a scattered part of all bit patterns
            let b = match (self.thorough, self.ext) {
                (true, _) => j as u32,
                // numbers with up to 12 leading mantissa bits, integers, and their neighbours
                _ if j < 1 << 23 => ((j as u32 >> 2) << 11).wrapping_add(j as u32 & 3).wrapping_sub(1),
                _ if j < 1 << 24 => ((j as i32 - (3 << 22)) as f32 / 2.0).to_bits(),
                (_, true) => (j as u32).wrapping_mul(0x9E37_79B1).wrapping_add(self.seed as u32),
                // one of each two neighbours
                _ => (j as u32) << 1 | ((j as u32).wrapping_mul(0x9E37_79B1).wrapping_add(self.seed as u32) >> 31),
            };
            return (f32::from_bits(b), 0.0, 0.0, 0);
        }
        let n = self.spec.len() as u64;
        if j < n * n * n {
            let k = |i: u64| self.spec[(i % n) as usize];
            let e = (k(j / n / n) as f64 * 1e3) as i32;
            return (k(j), k(j / n), k(j / n / n), if j % 2 == 0 { e } else { e.wrapping_neg().wrapping_add(i32::MIN) });
        }
        let mut g = Rng(j.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (self.seed << 32) | 1);
        g.next();
        let (r, s) = (g.next(), g.next());
        let num = |e: u64, r: u64| f32::from_bits((e as u32 & 0x1ff) << 23 | (r as u32 & 0x7f_ffff));
        let x = num(j, r);
        let a = match s >> 61 {
            0 => f32::from_bits(x.to_bits().wrapping_add((s % 5) as u32).wrapping_sub(2)),
            1 => self.spec[(s % n) as usize],
            2 => ((s % 601) as f32 - 300.0) / 2.0,
            _ => num(j >> 9, r >> 23),
        };
        let b = if s & 1 == 0 { num(s, s >> 9) } else { f32::from_bits((x * a).to_bits() ^ 0x8000_0000) };
        let e = (s >> 20) as u32 >> (r >> 59);
        (x, a, b, if s & 2 == 0 { e as i32 } else { (e as i32).wrapping_neg() })
    }
    fn go(&self, name: &str, f: impl Fn(f32, f32, f32, i32) -> f32 + Sync, e: impl Fn(f32, f32, f32, i32) -> f32 + Sync) -> (u64, Vec<(u64, String)>) {
        let n = match (self.unary, self.thorough, self.ext) {
            (true, false, true) => 1u64 << 29,
            (true, false, false) => 1 << 31,
            (true, _, _) => 1 << 32,
            (false, false, _) => 1 << 27,
            _ => 1 << 32,
        };
        let text = |j: u64| {
            let (x, a, b, n) = self.input(j);
            if self.unary {
                show(x)
            } else if self.int {
                format!("{}, {n}", show(x))
            } else {
                format!("{}, {}{}", show(x), show(a), if name == "mul_add" { format!(", {}", show(b)) } else { String::new() })
            }
        };
        if self.ext {
            return sweep::sweep(
                n,
                |j| {
                    let (x, a, b, n) = self.input(j);
                    same_bits(f(x, a, b, n), e(x, a, b, n))
                },
                |j, p| {
                    let (x, a, b, n) = self.input(j);
                    let show = |r: Option<f32>| r.map_or("a panic".to_string(), show);
                    let _ = p;
                    format!("{name}({}) is {} for F32, but {} for f32 with F32Ext", text(j), show(sweep::guard(|| f(x, a, b, n))), show(sweep::guard(|| e(x, a, b, n))))
                },
            );
        }
        sweep::sweep(
            n,
            |j| {
                let (x, a, b, n) = self.input(j);
                std::hint::black_box(f(x, a, b, n));
                // through the trait for a part (C19 compares the two)
                if j & 31 == 0 {
                    std::hint::black_box(e(x, a, b, n));
                }
                true
            },
            |j, _| format!("{name}({}) panics", text(j)),
        )
    }
}

fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let table = rows::load(&args.req("rows"));
    let ext = args.req("mode") == "ext";
    let methods: Vec<(String, Vec<String>, bool)> =
        table.iter().filter(|r| r.str("fn") == "method").map(|r| (r.str("name").to_string(), r.list("args").iter().map(|v| v.str().to_string()).collect(), r.int("f32") == 1)).collect();
    let programs: Vec<Vec<i64>> = table.iter().filter(|r| r.str("fn") == "program").map(|r| r.ints("calls")).collect();
    rep.count("rows", table.len() as u64);
    let mut spec: Vec<f32> = [0u32, 1, 0x7f_ffff, 0x80_0000, 0x3eff_ffff, 0x3f00_0000, 0x3f7f_ffff, 0x3f80_0000, 0x3f80_0001, 0x4000_0000, 0x4049_0fdb, 0x4120_0000, 0x4b80_0000, 0x4f00_0000, 0x7f7f_ffff, 0x7f80_0000, 0x7fc0_0000]
        .iter()
        .map(|b| f32::from_bits(*b))
        .collect();
    spec.extend(spec.clone().iter().map(|x| -x));
    // single calls
    let mut names: Vec<(String, Vec<String>)> = methods.iter().map(|m| (m.0.clone(), m.1.clone())).collect();
    if !ext {
        names.push(("cosh".into(), vec![]));
    }
    for (name, kinds) in &names {
        let run = Run { ext, thorough: args.thorough(), unary: kinds.is_empty(), int: kinds.iter().any(|k| k == "n"), seed: args.seed(), spec: spec.clone() };
        if ext && !methods.iter().any(|m| m.0 == *name && m.2) || !ext && name == "sin_cos.1" {
            continue;
        }
        let t0 = std::time::Instant::now();
        let (tried, bad) = sweep_of(name, &run);
        if std::env::var("TIMES").is_ok() {
            eprintln!("{name} {:?}", t0.elapsed());
        }
        rep.count(if kinds.is_empty() { "inputs" } else { "tuples" }, tried);
        bad.into_iter().for_each(|(_, b)| rep.violation(b));
    }
    // programs: under each schedule of clients
    if ext {
        let calls: Vec<(Call, bool)> = methods.iter().map(|m| (METHODS.iter().find(|(n, _)| *n == m.0).unwrap_or_else(|| harness::die("unknown method")).1, m.2)).collect();
        let runs = if args.thorough() { 20_000 } else { 400 };
        let mut g = Rng::new(args.seed(), 19);
        let starts: Vec<(f32, f32, f32, i32)> = (0..runs)
            .map(|i| {
                let mut num = |k: u64| match (i + k) % 3 {
                    0 => g.pick(&spec),
                    1 => f32::from_bits(g.u32()),
                    _ => (g.unit() as f32 - 0.5) * 40.0,
                };
                (num(0), num(1), num(2), g.range(-40, 40) as i32)
            })
            .collect();
        let (tried, bad) = sweep::sweep(
            programs.len() as u64 * runs,
            |j| {
                let (p, (x, a, b, n)) = (&programs[(j / runs) as usize], starts[(j % runs) as usize]);
                let exec = |sched: u32| {
                    p.iter().enumerate().fold(x, |r, (i, m)| {
                        let (call, both) = calls[*m as usize];
                        call(if both && sched >> i & 1 == 0 { Client::F } else { Client::E }, r, a, b, n)
                    })
                };
                let first = exec(0);
                (1..4).all(|s| same_bits(first, exec(s)))
            },
            |j, p| {
                let (pr, s) = (&programs[(j / runs) as usize], starts[(j % runs) as usize]);
                let names: Vec<&str> = pr.iter().map(|m| methods[*m as usize].0.as_str()).collect();
                format!("calls {names:?} from x, a, b, n = {s:?} {}", if p { "panic" } else { "depend on whether they are made through F32 or F32Ext" })
            },
        );
        rep.count("programs", tried);
        bad.into_iter().for_each(|(_, b)| rep.violation(b));
    }
    rep.sample(format!("F32(0.3).atan2(F32(-2.0)) = {:?}, 0.3.atan2(-2.0) = {:?}", sweep::guard(|| F32(0.3).atan2(F32(-2.0))), sweep::guard(|| F32Ext::atan2(0.3, -2.0))));
    rep.finish()
}
