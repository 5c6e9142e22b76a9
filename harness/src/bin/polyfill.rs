//! C01-C04: the bit rules of spec/Float.tla (rows of PolyfillRows) on every f32.
use harness::{out::Report, rows, show, sweep, Args};
use micromath::{F32Ext, F32};

#[derive(Clone, Copy)]
struct Rule {
    op: u8,
    k: u32,
    sg: u8,
    bits: bool,
}
const OPS: [&str; 10] = ["ID", "CONST", "NZ", "CLR", "UP", "HALF", "LOW", "NAN", "SPEC", "RAW"];
const SIGNUM: u8 = 10;

/// Does the result fit the rule for x (t: the sign argument)?
#[inline(always)]
fn fits(r: Rule, x: f32, t: f32, got: f32) -> bool {
    let b = x.to_bits();
    let (s, m) = (b >> 31, b & 0x7fff_ffff);
    let nan = m > 0x7f80_0000;
    let low = if r.k < 32 { ((1u64 << r.k) - 1) as u32 } else { 0 };
    let res = match r.op {
        0 | 9 => m,
        1 => r.k,
        2 => {
            if m == 0 {
                0
            } else {
                r.k
            }
        }
        3 => m & !low,
        4 => {
            if m & low == 0 {
                m
            } else {
                (m & !low) + low + 1
            }
        }
        5 => (m + (1 << (r.k - 1))) & !low,
        6 => ((m & low) as f32 / (low as u64 + 1) as f32).to_bits(),
        7 => 0x7fc0_0000,
        8 => {
            if nan || r.k == 1 {
                0x7fc0_0000
            } else {
                m
            }
        }
        _ => {
            if nan {
                0x7fc0_0000
            } else {
                r.k
            }
        }
    };
    let sign = match r.sg {
        0 => s,
        1 => 0,
        2 => 1 - s,
        _ => t.to_bits() >> 31,
    };
    let want = f32::from_bits(sign << 31 | res);
    if want.is_nan() && r.op != 9 {
        return got.is_nan();
    }
    if r.bits {
        got.to_bits() == want.to_bits()
    } else {
        got == want
    }
}

fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let all = rows::load(&args.req("rows"));
    for name in args.req("fns").split(',') {
        let mut table = vec![None; 512];
        for r in all.iter().filter(|r| r.str("fn") == name) {
            let op = r.str("op");
            let rule = Rule {
                op: if op == "SIGNUM" { SIGNUM } else { OPS.iter().position(|o| *o == op).unwrap_or_else(|| harness::die("unknown op")) as u8 },
                k: r.int("k") as u32,
                sg: ["keep", "clear", "flip", "arg"].iter().position(|o| *o == r.str("sg")).unwrap() as u8,
                bits: r.str("cmp") == "bits",
            };
            // an operation on cleared or carried bits within the mantissa only
            assert!(!(3..=6).contains(&rule.op) || (1..=23).contains(&rule.k));
            table[(r.int("s") * 256 + r.int("e")) as usize] = Some(rule);
        }
        if table.iter().any(|t| t.is_none()) {
            harness::die(&format!("{name}: rows missing"));
        }
        let table: Vec<Rule> = table.into_iter().map(|t| t.unwrap()).collect();
        rep.count("rows", 512);
        match name {
            "trunc" => run(&mut rep, name, &table, &[0.0], |x, _| F32(x).trunc().0, |x, _| F32Ext::trunc(x)),
            "fract" => run(&mut rep, name, &table, &[0.0], |x, _| F32(x).fract().0, |x, _| F32Ext::fract(x)),
            "floor" => run(&mut rep, name, &table, &[0.0], |x, _| F32(x).floor().0, |x, _| F32Ext::floor(x)),
            "ceil" => run(&mut rep, name, &table, &[0.0], |x, _| F32(x).ceil().0, |x, _| F32Ext::ceil(x)),
            "round" => run(&mut rep, name, &table, &[0.0], |x, _| F32(x).round().0, |x, _| F32Ext::round(x)),
            "abs" => run(&mut rep, name, &table, &[0.0], |x, _| F32(x).abs().0, |x, _| F32Ext::abs(x)),
            "neg" => run(&mut rep, name, &table, &[0.0], |x, _| (-F32(x)).0, |x, _| (-F32(x)).0),
            "signum" => run(&mut rep, name, &table, &[0.0], |x, _| F32(x).signum().0, |x, _| F32Ext::signum(x)),
            "copysign" => {
                let nan = f32::NAN;
                let tiny = f32::from_bits(1);
                let signs = [0.0, -0.0, 1.0, -1.0, f32::INFINITY, f32::NEG_INFINITY, nan, f32::from_bits(nan.to_bits() | 1 << 31), tiny, -tiny, f32::MAX, f32::MIN];
                run(&mut rep, name, &table, &signs, |x, t| F32(x).copysign(F32(t)).0, |x, t| F32Ext::copysign(x, t))
            }
            _ => harness::die("unknown function"),
        }
    }
    rep.finish()
}

fn run<F, G>(rep: &mut Report, name: &str, table: &[Rule], seconds: &[f32], f: F, g: G)
where
    F: Fn(f32, f32) -> f32 + Sync,
    G: Fn(f32, f32) -> f32 + Sync,
{
    for (i, &t) in seconds.iter().enumerate() {
        let arg = if seconds.len() > 1 { format!(", {}", show(t)) } else { String::new() };
        // every bit pattern with the first argument, every other one a multiplicatively scattered part
        let n: u64 = if i < 2 { 1 << 32 } else { 1 << 28 };
        let at = |j: u64| f32::from_bits(if i < 2 { j as u32 } else { (j as u32).wrapping_mul(0x9E37_79B1) ^ ((j as u32) << 17) });
        let ok = |j: u64| {
            let x = at(j);
            let r = table[(x.to_bits() >> 23) as usize];
            fits(r, x, t, f(x, t)) && fits(r, x, t, g(x, t))
        };
        let (tried, bad) = sweep::sweep(n, ok, |j, panicked| {
            let x = at(j);
            if panicked {
                format!("{name}({}{arg}) panics", show(x))
            } else {
                format!("{name}({}{arg}) is {} (F32) and {} (F32Ext), against the rule for this exponent", show(x), show(f(x, t)), show(g(x, t)))
            }
        });
        rep.count("inputs", tried);
        for (_, b) in bad {
            rep.violation(b);
        }
    }
    for x in [2.5f32, -2.5, 0.49999997, -1e10] {
        if let Some(r) = sweep::guard(|| f(x, seconds[0])) {
            rep.sample(format!("{name}({x:?}) = {r:?}"));
        }
    }
}
