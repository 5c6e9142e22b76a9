//! C05-C07, C09-C13: the contracts of spec/Contract.tla on every f32, against the trajectory of spec/Elem.tla.
use harness::{out::Report, reference::Reference, rows, show, sweep, Args};
use micromath::{F32Ext, F32};

#[derive(Clone, Debug)]
struct Row {
    s: u32,
    lo: u32,
    hi: u32,
    kind: Kind,
    a: f64,
    b: f64,
    /// 2^a, 2^b
    pa: f64,
    pb: f64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Nan,
    Inf,
    PInf,
    Within,
    Pos,
    NonNeg,
    Eq,
    Sqrt,
    Rsqrt,
    Recip,
    Exp,
    Cosh,
    ExpInf,
    Ln,
    Log2,
    Log10,
    Sin,
    Cos,
    Unit,
    Tan,
    Atan,
    AtanN,
    Asin,
    Acos,
    Any,
}
fn kind(s: &str) -> Kind {
    use Kind::*;
    match s {
        "NAN" => Nan,
        "INF" => Inf,
        "PINF" => PInf,
        "WITHIN" => Within,
        "POS" => Pos,
        "NONNEG" => NonNeg,
        "EQ" => Eq,
        "SQRT" => Sqrt,
        "RSQRT" => Rsqrt,
        "RECIP" => Recip,
        "EXP" => Exp,
        "COSH" => Cosh,
        "EXPINF" => ExpInf,
        "LN" => Ln,
        "LOG2" => Log2,
        "LOG10" => Log10,
        "SIN" => Sin,
        "COS" => Cos,
        "UNIT" => Unit,
        "TAN" => Tan,
        "ATAN" => Atan,
        "ATANN" => AtanN,
        "ASIN" => Asin,
        "ACOS" => Acos,
        "ANY" => Any,
        _ => harness::die(&format!("unknown predicate {s}")),
    }
}

/// The error of the reference and of the f64 arithmetic here
const SLACK: f64 = 1e-9;
/// Rounding of a result at the end of a range
const UNIT: f64 = 1.0 + 1.0 / 1048576.0;

/// Does the result r at x fulfil the predicate of the row?
#[inline(always)]
fn holds(rf: &Reference, row: &Row, xf: f32, rr: f32) -> bool {
    use Kind::*;
    let (x, r) = (xf as f64, rr as f64);
    let a = row.a + SLACK;
    let lead = |v: f64| if row.s == 1 { -v } else { v };
    match row.kind {
        Any => true,
        Nan => r.is_nan(),
        _ if r.is_nan() => false,
        Inf => r.is_infinite() && r.is_sign_negative() == (row.s == 1),
        PInf => r == f64::INFINITY,
        Within => (lead(r) >= 0.0) && lead(r) <= row.pa * (1.0 + row.b),
        Pos => r > 0.0 && r <= row.pa,
        NonNeg => r >= 0.0 && r <= row.pa * (1.0 + row.b),
        Eq => r == row.a * 1e7,
        Sqrt => r >= 0.0 && r * r >= (1.0 - a) * (1.0 - a) * x && r * r <= (1.0 + row.b + SLACK) * (1.0 + row.b + SLACK) * x,
        Rsqrt => r > 0.0 && r * r * x <= (1.0 + a) * (1.0 + a) && r * r * x >= (1.0 - a) * (1.0 - a),
        Recip => (r * x - 1.0).abs() <= a,
        Exp => (r - rf.exp(x)).abs() <= a * rf.exp(x),
        Cosh => {
            let c = (rf.exp(x) + rf.exp(-x)) / 2.0;
            (r - c).abs() <= a * c
        }
        ExpInf => r == f64::INFINITY || {
            let e = rf.exp(x.abs());
            // for cosh (a = 0) any number near the largest ones
            if row.a == 0.0 { (r - e / 2.0).abs() <= 0.002 * e / 2.0 } else { (r - e).abs() <= a * e }
        },
        Ln => (r - rf.ln(x)).abs() <= a,
        Log2 => (r - rf.ln(x) / rf.ln2).abs() <= a,
        Log10 => (r - rf.ln(x) / rf.ln10()).abs() <= a,
        Sin | Cos => {
            let (c, s) = rf.cos_sin(x);
            let t = if row.kind == Sin { s } else { c };
            (r - t).abs() <= a + x.abs() * row.pb && r.abs() <= UNIT
        }
        Unit => r.abs() <= UNIT,
        Tan => {
            let (c, s) = rf.cos_sin(x);
            if r.is_infinite() {
                c.abs() <= a
            } else {
                (r * c - s).abs() <= a * (1.0 + r.abs())
            }
        }
        Atan | AtanN => {
            if row.kind == AtanN && r.abs() > 1.0 {
                return false;
            }
            let (t, a) = if row.kind == Atan { (r, a) } else { (r * rf.half_pi, a * rf.half_pi) };
            if t.abs() > rf.half_pi + a {
                return false;
            }
            if x.is_infinite() {
                return (t - rf.half_pi * x.signum()).abs() <= a;
            }
            let (c, s) = rf.cos_sin(t);
            let d = c * x - s; // sin of the difference, times the length of (1, x)
            c + s * x > 0.0 && d * d <= a * a * (1.0 + x * x)
        }
        Asin => {
            let h = rf.half_pi;
            r.abs() <= h + 1e-6 && rf.sin((r - a).max(-h)) <= x + SLACK && x <= rf.sin((r + a).min(h)) + SLACK
        }
        Acos => {
            let p = rf.pi();
            r >= -1e-6 && r <= p + 1e-6 && rf.cos((r - a).max(0.0)) >= x - SLACK && x >= rf.cos((r + a).min(p)) - SLACK
        }
    }
}

fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let all = rows::load(&args.req("rows"));
    let rf = Reference::load(&args.req("elem"));
    if args.0.iter().any(|a| a == "--sin-cos") {
        // the pair is that of the separate functions, for every f32
        let parts = |x: f32| [F32(x).sin().0, F32(x).cos().0];
        let pairs = |x: f32| {
            let (a, b) = F32(x).sin_cos();
            let (c, d) = F32Ext::sin_cos(x);
            [a.0, b.0, c, d]
        };
        let (tried, bad) = sweep::sweep(
            1 << 32,
            |j| {
                let x = f32::from_bits(j as u32);
                let (p, q) = (parts(x), pairs(x));
                harness::same_bits(p[0], q[0]) && harness::same_bits(p[1], q[1]) && harness::same_bits(p[0], q[2]) && harness::same_bits(p[1], q[3])
            },
            |j, p| {
                let x = f32::from_bits(j as u32);
                if p { format!("sin_cos({}) panics", show(x)) } else { format!("sin_cos({}) is {:?} (F32, F32Ext), but sin and cos are {:?}", show(x), pairs(x), parts(x)) }
            },
        );
        rep.count("inputs", tried);
        bad.into_iter().for_each(|(_, b)| rep.violation(b));
    }
    for name in args.req("fns").split(',') {
        let mut tables: [Vec<Row>; 2] = [vec![], vec![]];
        let mut sym = String::new();
        for r in all.iter().filter(|r| r.str("fn") == name) {
            let (a, b) = (r.int("a"), r.int("b"));
            tables[r.int("s") as usize].push(Row {
                s: r.int("s") as u32,
                lo: r.int("lo") as u32,
                hi: r.int("hi") as u32,
                kind: kind(r.str("kind")),
                a: a as f64 * 1e-7,
                b: b as f64 * 1e-7,
                pa: if a.abs() <= 126 { 2f64.powi(a as i32) } else { 0.0 },
                pb: if b != 0 && b.abs() <= 126 { 2f64.powi(b as i32) } else { 0.0 },
            });
            sym = r.str("sym").to_string();
        }
        for t in &tables {
            if t.is_empty() || t[0].lo != 0 || t.last().unwrap().hi != 0x7fff_ffff || t.windows(2).any(|w| w[1].lo != w[0].hi + 1) {
                harness::die(&format!("{name}: rows do not cover the bit patterns"));
            }
            rep.count("rows", t.len() as u64);
        }
        macro_rules! case {
            ($f:ident) => {
                run(&mut rep, &rf, name, &tables, &sym, |x| F32(x).$f().0, |x| F32Ext::$f(x))
            };
        }
        match name {
            "sin" => case!(sin),
            "cos" => case!(cos),
            "tan" => case!(tan),
            "atan" => case!(atan),
            "atan_norm" => case!(atan_norm),
            "asin" => case!(asin),
            "acos" => run(&mut rep, &rf, name, &tables, &sym, |x| F32Ext::acos(x), |x| F32Ext::acos(x)),
            "sqrt" => case!(sqrt),
            "invsqrt" => case!(invsqrt),
            "inv" => case!(inv),
            "recip" => run(&mut rep, &rf, name, &tables, &sym, |x| F32(x).recip().0, |x| F32(x).recip().0),
            "exp" => case!(exp),
            "cosh" => run(&mut rep, &rf, name, &tables, &sym, |x| F32(x).cosh().0, |x| F32(x).cosh().0),
            "ln" => case!(ln),
            "log2" => case!(log2),
            "log10" => case!(log10),
            _ => harness::die("unknown function"),
        }
    }
    rep.finish()
}

/// t = sin(x) / cos(x), of the approximations, up to rounding (and the ends of the range of f32)
fn quotient(x: f32, t: f32) -> bool {
    let (s, c) = (F32(x).sin().0 as f64, F32(x).cos().0 as f64);
    let t = t as f64;
    if s.is_nan() || c.is_nan() {
        return t.is_nan();
    }
    if s == 0.0 && c == 0.0 {
        return true;
    }
    if t.is_infinite() {
        return s.abs() >= 3.4e38 * c.abs();
    }
    (t * c - s).abs() <= s.abs() * 2f64.powi(-22) + 1e-44 * c.abs()
}

fn run<F, G>(rep: &mut Report, rf: &Reference, name: &str, tables: &[Vec<Row>; 2], sym: &str, f: F, g: G)
where
    F: Fn(f32) -> f32 + Sync,
    G: Fn(f32) -> f32 + Sync,
{
    let symmetric = |x: f32, rp: f32, rn: f32| match sym {
        "odd" => harness::same_bits(rn, -rp),
        "even" => harness::same_bits(rn, rp),
        "quotient" => quotient(x, rp) && quotient(-x, rn),
        "rising" => {
            let b = x.to_bits();
            b == 0 || b > 0x7f80_0000 || f(f32::from_bits(b - 1)) <= rp
        }
        _ => true,
    };
    let row = |m: u32, s: usize| {
        let t = &tables[s];
        let mut i = 0;
        while t[i].hi < m {
            i += 1;
        }
        &t[i]
    };
    // index: magnitude bits; both signs
    let ok = |j: u64| {
        let (xp, xn) = (f32::from_bits(j as u32), f32::from_bits(j as u32 | 1 << 31));
        let (rp, rn) = (f(xp), f(xn));
        // F32Ext on a scattered eighth (C19 compares it with F32 everywhere)
        let ext = (j.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 61) != 0 || (harness::same_bits(g(xp), rp) && harness::same_bits(g(xn), rn));
        ext && holds(rf, row(j as u32, 0), xp, rp) && holds(rf, row(j as u32, 1), xn, rn) && symmetric(xp, rp, rn)
    };
    let (tried, bad) = sweep::sweep(1 << 31, ok, |j, _| {
        let (xp, xn) = (f32::from_bits(j as u32), f32::from_bits(j as u32 | 1 << 31));
        for (s, x) in [(0, xp), (1, xn)] {
            let r = row(j as u32, s);
            match sweep::guard(|| (f(x), g(x))) {
                None => return format!("{name}({}) panics", show(x)),
                Some((v, w)) => {
                    if !holds(rf, r, x, v) {
                        return format!("{name}({}) = {} violates {:?} (a = {:.7}, b = {:.7})", show(x), show(v), r.kind, r.a, r.b);
                    }
                    if !harness::same_bits(v, w) {
                        return format!("{name}({}) is {} of F32, but {} of F32Ext", show(x), show(v), show(w));
                    }
                }
            }
        }
        format!("{name}: {} at {} and {} at {} break the symmetry ({sym})", show(f(xp)), show(xp), show(f(xn)), show(xn))
    });
    rep.count("inputs", 2 * tried);
    for (_, b) in bad {
        rep.violation(b);
    }
    for t in tables {
        for r in t.iter().filter(|r| r.kind != Kind::Nan && r.kind != Kind::Any) {
            let x = f32::from_bits((r.lo + (r.hi - r.lo) / 2) | r.s << 31);
            if let Some(v) = sweep::guard(|| f(x)) {
                rep.sample(format!("{name}({x:?}) = {v:?}: {:?} (a = {:.7})", r.kind, r.a));
            }
        }
    }
}
