//! C08, C10 (hypot), C13 (log), C14, C15, C16: the contracts of spec/Contract2.tla and spec/Powi.tla on pairs of numbers.
use harness::{out::Report, reference::Reference, rows, same_bits, show, sweep, Args, Rng};
use micromath::{F32Ext, F32};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Atan2,
    Atan2N,
    Hypot,
    LogB,
    Powf,
    PowfNeg,
    Rem,
    DivE,
    Nan,
    Eq,
    NotNan,
    Any,
    One,
    Powi,
}
fn kind(s: &str) -> Kind {
    use Kind::*;
    match s {
        "ATAN2" => Atan2,
        "ATAN2N" => Atan2N,
        "HYPOT" => Hypot,
        "LOGB" => LogB,
        "POWF" => Powf,
        "POWFNEG" => PowfNeg,
        "REM" => Rem,
        "DIVE" => DivE,
        "NAN" => Nan,
        "EQ" => Eq,
        "NOTNAN" => NotNan,
        "ANY" => Any,
        "ONE" => One,
        "POWI" => Powi,
        _ => harness::die(&format!("unknown predicate {s}")),
    }
}
#[derive(Clone, Copy, Debug)]
struct Cell {
    kind: Kind,
    a: i64,
    b: i64,
    sg: bool,
}

struct Spec {
    rf: Reference,
    upto: Vec<u32>,
    intbits: Vec<i64>,
    cells: Vec<Option<Cell>>, // xs, xc, ys, yc  or  xs, xc, parity
}
const SLACK: f64 = 1e-9;

impl Spec {
    fn class(&self, x: f32) -> usize {
        let m = x.to_bits() & 0x7fff_ffff;
        self.upto.iter().position(|u| m <= *u).unwrap()
    }
    fn cell(&self, x: f32, y: f32) -> Cell {
        let s = |v: f32| (v.to_bits() >> 31) as usize;
        self.cells[((s(x) * 7 + self.class(x)) * 2 + s(y)) * 7 + self.class(y)].unwrap()
    }
    fn icell(&self, x: f32, n: i32) -> Cell {
        let par = if n == 0 { 0 } else { 2 - (n % 2 == 0) as usize };
        self.cells[((x.to_bits() >> 31) as usize * 7 + self.class(x)) * 3 + par].unwrap()
    }
    /// (is an integer, is odd), by the rule of spec/Float.tla
    fn integer(&self, x: f32) -> (bool, bool) {
        let m = x.to_bits() & 0x7fff_ffff;
        let k = self.intbits[(m >> 23) as usize];
        if k == 24 {
            (m == 0, false)
        } else if k == -1 {
            (true, false)
        } else {
            let int = m & ((1u32 << k) - 1) == 0;
            // the significand, with the leading one
            (int, int && ((m & 0x7f_ffff) | 0x80_0000) >> k & 1 == 1)
        }
    }
}

/// Significand and exponent of a finite number
fn parts(x: f32) -> (u64, i32) {
    let b = x.to_bits();
    let e = (b >> 23 & 255) as i32;
    let m = (b & 0x7f_ffff) as u64;
    if e == 0 {
        (m, -149)
    } else {
        (m | 0x80_0000, e - 150)
    }
}
/// |x| mod |y| as an f32, which is exact
fn modulo(x: f32, y: f32) -> f32 {
    let ((mx, ex), (my, ey)) = (parts(x), parts(y));
    if mx == 0 {
        return 0.0;
    }
    let (m, e) = if ex >= ey {
        // mx * 2^(ex - ey) mod my
        let mut r = mx % my;
        for _ in 0..(ex - ey) {
            r = r * 2 % my;
        }
        (r, ey)
    } else {
        let d = ey - ex;
        (if d >= 24 { mx } else { mx % (my << d) }, ex)
    };
    (m as f64 * 2f64.powi(e)) as f32
}
/// x and y as integers (up to a common power of two), if these have magnitudes up to 2^24
fn integers(x: f32, y: f32) -> Option<(i64, i64)> {
    let norm = |v: f32| {
        let (m, e) = parts(v);
        if m == 0 {
            return (0i64, i32::MAX);
        }
        let t = m.trailing_zeros();
        ((m >> t) as i64 * if v < 0.0 { -1 } else { 1 }, e + t as i32)
    };
    let ((a, ea), (b, eb)) = (norm(x), norm(y));
    let e = ea.min(eb);
    let up = |v: i64, ev: i32| {
        if v == 0 {
            Some(0)
        } else if ev - e > 24 {
            None
        } else {
            Some(v << (ev - e)).filter(|w| w.abs() <= 1 << 24)
        }
    };
    Some((up(a, ea)?, up(b, eb)?))
}

/// Do the results of f fulfil the contract at (x, y)?
#[inline(always)]
fn holds(sp: &Spec, x: f32, y: f32, r: f32, f: &impl Fn(f32, f32) -> f32) -> bool {
    use Kind::*;
    let c = sp.cell(x, y);
    let (xd, yd, rd) = (x as f64, y as f64, r as f64);
    let a = c.a as f64 * 1e-7 + SLACK;
    match c.kind {
        Any | One | Powi => true,
        Nan => r.is_nan(),
        _ if r.is_nan() => match c.kind {
            PowfNeg => c.a == 0 || !sp.integer(y).0,
            LogB => sp.rf.ln(yd).abs() < 0.01,
            _ => false,
        },
        NotNan => {
            let (p, q) = (x.abs(), y.abs());
            same_bits(f(p, q), r) && same_bits(f(q, p), r)
        }
        Eq => r == c.a as f32,
        Atan2 | Atan2N => {
            // receiver x is the ordinate
            let h = sp.rf.half_pi;
            let (t, a) = if c.kind == Atan2 { (rd, a) } else { (rd * h, a * h) };
            let (cs, sn) = sp.rf.cos_sin(t);
            let len2 = xd * xd + yd * yd;
            let cross = cs * xd - sn * yd;
            let range = if c.kind == Atan2 { rd.abs() <= 2.0 * h + 3e-7 } else { (0.0..=4.0).contains(&rd) };
            let sign = c.kind == Atan2N || xd.abs() < yd.abs() * 2f64.powi(-20) || (r != 0.0 && (rd < 0.0) == (xd < 0.0));
            // not negative for y >= 0: the negative half of the x axis is at +pi
            let half = c.kind == Atan2N || xd.is_sign_negative() || rd >= 0.0;
            range && sign && half && cs * yd + sn * xd > 0.0 && cross * cross <= a * a * len2
        }
        Hypot => {
            let h2 = xd * xd + yd * yd;
            let b = 1.0 + c.b as f64 * 1e-7 + SLACK;
            let (p, q) = (x.abs(), y.abs());
            r >= 0.0 && rd * rd >= (1.0 - a) * (1.0 - a) * h2 && rd * rd <= b * b * h2 && same_bits(f(p, q), r) && same_bits(f(q, p), r)
        }
        LogB => {
            let lb = sp.rf.ln(yd);
            if lb.abs() < 0.01 {
                return true;
            }
            let t = sp.rf.ln(xd) / lb;
            (rd - t).abs() <= (1.0 + t.abs()) * a / lb.abs() + 1e-6 * t.abs()
        }
        Powf => {
            if y == 0.0 {
                return r == 1.0;
            }
            let t = yd * sp.rf.ln(xd);
            let tol = a + (c.b as f64 * 1e-7 + SLACK) * yd.abs();
            let (lo, hi) = (-87.2357, 88.7228); // ln(1.3e-38), ln(f32::MAX)
            let near = |v: f64| v > 0.0 && v.is_finite() && (sp.rf.ln(v) - t).abs() <= tol;
            (t + tol > hi && r == f32::INFINITY) || (t - tol < lo && (0.0..=1.3e-38).contains(&rd)) || near(rd)
        }
        PowfNeg => {
            let (int, odd) = sp.integer(y);
            if !int || c.a == 0 {
                return int; // NaN was dealt with above
            }
            let p = f(-x, y);
            same_bits(r, if odd { -p } else { p })
        }
        Rem => {
            let m = modulo(x, y);
            let want = if x < 0.0 && m != 0.0 { y.abs() - m } else { m };
            r == want
        }
        DivE => match integers(x, y) {
            Some((p, q)) => {
                let want = if q > 0 { p.div_euclid(q) } else { -p.div_euclid(-q) };
                rd == want as f64
            }
            None => {
                let q = xd / yd;
                if q.abs() >= 4194304.0 {
                    return true;
                }
                let want = if y > 0.0 { q.floor() } else { q.ceil() };
                let n = q.round();
                if n != 0.0 && (q - n).abs() <= q.abs() * 2f64.powi(-22) {
                    // the quotient may have been rounded to the integer
                    rd == want || (rd - n).abs() <= 1.0
                } else {
                    // x < 0 and a quotient that is zero in f64, too
                    rd == if q == 0.0 && x < 0.0 { if y > 0.0 { -1.0 } else { 1.0 } } else { want }
                }
            }
        },
    }
}

/// The same for integer exponents
fn iholds(sp: &Spec, x: f32, n: i32, r: f32) -> bool {
    use Kind::*;
    let c = sp.icell(x, n);
    match c.kind {
        Any => true,
        One => r == 1.0,
        Nan => r.is_nan(),
        _ => {
            if r.is_nan() {
                return false;
            }
            // the machine of spec/Powi.tla, in f64
            let (mut k, mut b, mut p) = (n.unsigned_abs(), (x as f64).abs(), 1f64);
            while k > 0 {
                if k & 1 == 1 {
                    p *= b;
                }
                k >>= 1;
                if k > 0 {
                    b *= b;
                }
            }
            let exact = n > 0 && x.trunc() == x && p <= 16777216.0;
            if n < 0 {
                p = 1.0 / p;
            }
            let neg = c.sg;
            // a zero (of either sign) is not negative
            if x == 0.0 {
                return if n > 0 { r == 0.0 } else { r.is_infinite() };
            }
            if r != 0.0 && (r < 0.0) != neg {
                return false;
            }
            if exact {
                return r.abs() as f64 == p;
            }
            let f = sp.rf.exp((c.a as f64 * (n as f64).abs() + c.b as f64) * 2f64.powi(-24) + SLACK);
            let m = r.abs() as f64;
            (p * f > 3.4e38 && m == f64::INFINITY) || (p / f < 1.2e-38 && m <= 1.2e-38 * f) || (m.is_finite() && m <= p * f && p <= m * f)
        }
    }
}

/// The j-th pair: systematic in signs and exponents, then neighbourhoods where functions of two arguments differ
fn pair(seed: u64, j: u64) -> (f32, f32) {
    let mut g = Rng::new(seed ^ j.wrapping_mul(0x9E37_79B9_7F4A_7C15), j >> 18);
    let sys = j & 3 != 3;
    if sys {
        // 2^18 sign and exponent combinations, then mantissas
        let i = (j >> 2) * 3 + (j & 3);
        let man = |g: &mut Rng| match g.below(6) {
            0 => 0,
            1 => 0x7f_ffff,
            2 => 0x40_0000,
            3 => g.u32() & 0x7f_ffff & !0x1fff,
            _ => g.u32() & 0x7f_ffff,
        };
        let x = ((i & 1) as u32) << 31 | (((i >> 2) & 255) as u32) << 23 | man(&mut g);
        let y = ((i >> 1 & 1) as u32) << 31 | (((i >> 10) & 255) as u32) << 23 | man(&mut g);
        return (f32::from_bits(x), f32::from_bits(y));
    }
    let sign = |g: &mut Rng, v: f32| if g.next() & 1 == 0 { v } else { -v };
    let moderate = |g: &mut Rng| {
        let e = 127 + g.range(-20, 20);
        let v = f32::from_bits((e as u32) << 23 | (g.u32() & 0x7f_ffff));
        sign(g, v)
    };
    let int = |g: &mut Rng| {
        let k = g.below(25);
        let v = g.range(0, 1 << k) as f32;
        sign(g, v)
    };
    let unit = |g: &mut Rng| f32::from_bits(0x3f80_0000u32.wrapping_add(g.range(-(1 << 20), 1 << 20) as u32));
    let near = |g: &mut Rng, v: f32| f32::from_bits(v.to_bits().wrapping_add(g.range(-3, 3) as u32));
    let pow2 = |g: &mut Rng| 2f32.powi(g.range(-126, 127) as i32);
    let extreme = |g: &mut Rng| g.pick(&[0.0, -0.0, 1.0, -1.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::from_bits(1), f32::EPSILON, 0.5, -0.5, 2.0, -2.0]);
    // a number that is off by a fraction of any size
    let off = |g: &mut Rng, v: f64| {
        let k = g.range(0, 26) as i32;
        let d = g.pick(&[0.0, 1.0, -1.0]) * 2f64.powi(-k) * (1.0 + g.below(1 << 20) as f64 / (1 << 20) as f64);
        (v * (1.0 + d)) as f32
    };
    match g.below(18) {
        14 => {
            // numbers that are related to each other
            let v = moderate(&mut g);
            let a = (v as f64).abs();
            let k = g.pick(&[1.0, 1.0, 1.0, 0.5, 2.0, 3.0, 10.0]);
            let w = g.pick(&[a * k, 1.0 / a, a * a, a.sqrt(), a + 1.0, (a - 1.0).abs(), a.ln().abs(), a.min(80.0).exp(), a / (a + 1.0)]);
            let w = off(&mut g, w);
            let w = sign(&mut g, w);
            if g.next() & 1 == 0 { (v, w) } else { (w, v) }
        }
        15 => {
            // powers around the ends of the range, and around 1
            let v = if g.next() & 1 == 0 { moderate(&mut g) } else { unit(&mut g) };
            let t = g.pick(&[128.0, 127.0, -126.0, -127.0, -149.0, 1.0, -1.0, 0.5, 1e-4, -1e-4]);
            let w = off(&mut g, t / (v as f64).abs().log2());
            (v, if g.next() & 1 == 0 { w } else { w.trunc() })
        }
        16 | 17 => {
            // well-known numbers and their neighbours
            use std::f32::consts::*;
            let known = |g: &mut Rng| {
                let v = g.pick(&[PI, FRAC_PI_2, FRAC_PI_4, TAU, E, LN_2, LN_10, LOG2_E, LOG10_E, SQRT_2, FRAC_1_SQRT_2, FRAC_1_PI, 0.1, 0.01, 1e-3, 10.0, 100.0, 1000.0, 1e-6, 1e6, 1e10, 1e-10, 1.0, 2.0, 3.0, 0.25,
                    0.5, 1.5, 0.75, 255.0, 256.0, 65535.0, 65536.0, 16777215.0, 16777216.0, 2147483647.0, 4294967295.0, 180.0, 360.0, 90.0, f32::EPSILON, f32::MIN_POSITIVE, f32::MAX]);
                let v = near(g, v);
                sign(g, v)
            };
            let a = known(&mut g);
            let b = match g.below(4) {
                0 => moderate(&mut g),
                1 => int(&mut g),
                _ => known(&mut g),
            };
            if g.next() & 1 == 0 { (a, b) } else { (b, a) }
        }
        0 => (moderate(&mut g), moderate(&mut g)),
        1 => (moderate(&mut g), int(&mut g)),
        2 => (int(&mut g), int(&mut g)),
        3 => {
            let s = 2f32.powi(g.range(-100, 100) as i32);
            (int(&mut g) * s, int(&mut g) * s)
        }
        4 => {
            let v = moderate(&mut g);
            let w = near(&mut g, v);
            (v, sign(&mut g, w))
        }
        5 => {
            let v = moderate(&mut g);
            let k = g.range(1, 1000) as f32;
            let w = near(&mut g, v * k);
            (sign(&mut g, w), v)
        }
        6 => (unit(&mut g), moderate(&mut g)),
        7 => (unit(&mut g).abs(), int(&mut g)),
        8 => (moderate(&mut g), unit(&mut g)),
        9 => (extreme(&mut g), f32::from_bits(g.u32())),
        10 => (f32::from_bits(g.u32()), extreme(&mut g)),
        11 => (extreme(&mut g), extreme(&mut g)),
        12 => {
            let v = moderate(&mut g);
            (v, int(&mut g) / 2.0)
        }
        _ => {
            let (p, q) = (pow2(&mut g), pow2(&mut g));
            (near(&mut g, p), near(&mut g, q))
        }
    }
}
fn ipair(seed: u64, j: u64) -> (f32, i32) {
    let mut g = Rng::new(seed ^ j.wrapping_mul(0x9E37_79B9_7F4A_7C15), 7 + (j >> 18));
    let man = |g: &mut Rng| match g.below(6) {
        0 => 0,
        1 => 0x7f_ffff,
        2 => 0x40_0000,
        3 => g.u32() & 0x7f_ffff & !0x1fff,
        _ => g.u32() & 0x7f_ffff,
    };
    let sp = j & 7;
    // signs and exponents in turn
    let x = f32::from_bits(((j >> 3) as u32 & 511) << 23 | man(&mut g));
    let small = ((j >> 12) % 601) as i32 - 300;
    match sp {
        0 | 1 => (x, small),
        2 => {
            // powers around the ends of the range, and around 1
            let e = (x.to_bits() as i32 >> 23 & 255) - 127;
            let x = if (-40..40).contains(&e) { x } else { f32::from_bits(0x3f80_0000u32.wrapping_add(g.range(-(1 << 22), 1 << 21) as u32) | x.to_bits() & 1 << 31) };
            let t = g.pick(&[128.0, 127.0, 24.0, 1.0, -1.0, -24.0, -126.0, -127.0, -149.0]);
            (x, ((t / (x.abs() as f64).log2()) as i32).saturating_add(g.range(-2, 2) as i32))
        }
        3 => (f32::from_bits(0x3f80_0000u32.wrapping_add(g.range(-(1 << 23), 1 << 22) as u32) | (g.u32() & 1) << 31), small),
        4 => (f32::from_bits(0x3f80_0000u32.wrapping_add(g.range(-4000, 4000) as u32) | (g.u32() & 1) << 31), g.range(-100000, 100000) as i32),
        5 => {
            let k = g.below(32);
            let n = g.pick(&[1i64, -1]) * ((1i64 << k) + g.range(-1, 1));
            (if g.next() & 1 == 0 { x } else { f32::from_bits(0x3f80_0000u32.wrapping_add(g.range(-40, 40) as u32) | (g.u32() & 1) << 31) }, n.clamp(i32::MIN as i64, i32::MAX as i64) as i32)
        }
        6 => (g.range(-4096, 4096) as f32 / g.pick(&[1.0, 1.0, 2.0, 4.0]), g.range(-24, 24) as i32),
        _ => {
            let any = g.u32() as i32;
            (x, g.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 0, 1, -1, any]))
        }
    }
}

fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let all = rows::load(&args.req("rows"));
    let seed = args.seed();
    let n: u64 = if args.thorough() { 1 << 33 } else { 1 << 28 };
    let rf = Reference::load(&args.req("elem"));
    let mut sp = Spec { rf, upto: all[0].ints("upto").iter().map(|v| *v as u32).collect(), intbits: if all[0].has("intbits") { all[0].ints("intbits") } else { vec![] }, cells: vec![] };
    for name in args.req("fns").split(',') {
        let ints = name == "powi";
        sp.cells = vec![None; if ints { 42 } else { 196 }];
        for r in all.iter().filter(|r| r.str("fn") == name) {
            let at = |k: &str| r.int(k) as usize;
            let c = Cell { kind: kind(r.str("kind")), a: r.int("a"), b: r.int("b"), sg: r.has("sg") && r.int("sg") == 1 };
            let i = if ints {
                (at("xs") * 7 + at("xc")) * 3 + ["zero", "even", "odd"].iter().position(|p| *p == r.str("par")).unwrap()
            } else {
                ((at("xs") * 7 + at("xc")) * 2 + at("ys")) * 7 + at("yc")
            };
            sp.cells[i] = Some(c);
        }
        if sp.cells.iter().any(|c| c.is_none()) {
            harness::die(&format!("{name}: cells missing"));
        }
        rep.count("rows", sp.cells.len() as u64);
        match name {
            "atan2" => run(&mut rep, &sp, name, seed, n, |x, y| F32(x).atan2(F32(y)).0, |x, y| F32Ext::atan2(x, y)),
            "atan2_norm" => run(&mut rep, &sp, name, seed, n, |x, y| F32Ext::atan2_norm(x, y), |x, y| F32Ext::atan2_norm(x, y)),
            "hypot" => run(&mut rep, &sp, name, seed, n, |x, y| F32(x).hypot(F32(y)).0, |x, y| F32Ext::hypot(x, y)),
            "log" => run(&mut rep, &sp, name, seed, n, |x, y| F32(x).log(F32(y)).0, |x, y| F32Ext::log(x, y)),
            "powf" => run(&mut rep, &sp, name, seed, n, |x, y| F32(x).powf(F32(y)).0, |x, y| F32Ext::powf(x, y)),
            "rem_euclid" => run(&mut rep, &sp, name, seed, n, |x, y| F32(x).rem_euclid(F32(y)).0, |x, y| F32Ext::rem_euclid(x, y)),
            "div_euclid" => run(&mut rep, &sp, name, seed, n, |x, y| F32(x).div_euclid(F32(y)).0, |x, y| F32Ext::div_euclid(x, y)),
            "powi" => {
                let f = |x: f32, n: i32| F32(x).powi(n).0;
                let g = |x: f32, n: i32| F32Ext::powi(x, n);
                let (tried, bad) = sweep::sweep(
                    n,
                    |j| {
                        let (x, k) = ipair(seed, j);
                        let r = f(x, k);
                        iholds(&sp, x, k, r) && same_bits(r, g(x, k))
                    },
                    |j, p| {
                        let (x, k) = ipair(seed, j);
                        if p {
                            format!("powi({}, {k}) panics", show(x))
                        } else {
                            format!("powi({}, {k}) = {} (F32Ext: {}) violates {:?}", show(x), show(f(x, k)), show(g(x, k)), sp.icell(x, k))
                        }
                    },
                );
                rep.count("inputs", tried);
                bad.into_iter().for_each(|(_, b)| rep.violation(b));
                for (x, k) in [(3.0f32, 5), (-1.5, 7), (0.999, -20), (2.0, i32::MIN)] {
                    if let Some(r) = sweep::guard(|| f(x, k)) {
                        rep.sample(format!("powi({x:?}, {k}) = {r:?}: {:?}", sp.icell(x, k)));
                    }
                }
            }
            _ => harness::die("unknown function"),
        }
    }
    rep.finish()
}

fn run<F, G>(rep: &mut Report, sp: &Spec, name: &str, seed: u64, n: u64, f: F, g: G)
where
    F: Fn(f32, f32) -> f32 + Sync,
    G: Fn(f32, f32) -> f32 + Sync,
{
    let (tried, bad) = sweep::sweep(
        n,
        |j| {
            let (x, y) = pair(seed, j);
            let r = f(x, y);
            holds(sp, x, y, r, &f) && same_bits(r, g(x, y))
        },
        |j, p| {
            let (x, y) = pair(seed, j);
            if p {
                format!("{name}({}, {}) panics", show(x), show(y))
            } else {
                format!("{name}({}, {}) = {} (F32Ext: {}) violates {:?}", show(x), show(y), show(f(x, y)), show(g(x, y)), sp.cell(x, y))
            }
        },
    );
    rep.count("inputs", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    for j in [3u64, 1003, 20003, 300003] {
        let (x, y) = pair(seed, j);
        if let Some(r) = sweep::guard(|| f(x, y)) {
            rep.sample(format!("{name}({x:?}, {y:?}) = {r:?}: {:?}", sp.cell(x, y)));
        }
    }
}
