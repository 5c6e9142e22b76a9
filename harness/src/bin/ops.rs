//! C17: operators, assignments, comparisons, sums and mul_add of F32: the class rows of spec/Ops.tla, and IEEE 754 (f32) beyond.
use harness::{out::Report, rows, same_bits, same_num, show, sweep, Args, Rng};
use micromath::{F32Ext, F32};
use std::cmp::Ordering;
use std::hint::black_box;

pub const OPS: [&str; 5] = ["add", "sub", "mul", "div", "rem"];
pub const FORMS: [&str; 6] = ["FF", "Ff", "fF", "FF=", "Ff=", "fF="];

macro_rules! forms {
    ($op:tt, $x:expr, $y:expr, $($asg:tt)*) => {{
        let (x, y): (f32, f32) = ($x, $y);
        let (mut a, mut b) = (F32(x), F32(x));
        a $($asg)* F32(y);
        b $($asg)* y;
        [(F32(x) $op F32(y)).0, (F32(x) $op y).0, (x $op F32(y)).0, a.0, b.0, 0.0]
    }};
}
#[inline(always)]
fn real(op: usize, x: f32, y: f32) -> [f32; 6] {
    let mut c = x;
    let mut r = match op {
        0 => forms!(+, x, y, +=),
        1 => forms!(-, x, y, -=),
        2 => forms!(*, x, y, *=),
        3 => forms!(/, x, y, /=),
        _ => forms!(%, x, y, %=),
    };
    match op {
        0 => c += F32(y),
        1 => c -= F32(y),
        2 => c *= F32(y),
        3 => c /= F32(y),
        _ => c = r[2], // f32 %= F32 does not exist
    }
    r[5] = c;
    r
}
#[inline(always)]
fn ieee(op: usize, x: f32, y: f32) -> f32 {
    match op {
        0 => x + y,
        1 => x - y,
        2 => x * y,
        3 => x / y,
        _ => x % y,
    }
}
type Cmp = ([bool; 6], Option<Ordering>);
fn compare(form: usize, x: f32, y: f32) -> Cmp {
    macro_rules! c {
        ($a:expr, $b:expr) => {
            ([$a == $b, $a != $b, $a < $b, $a <= $b, $a > $b, $a >= $b], $a.partial_cmp(&$b))
        };
    }
    match form {
        0 => c!(F32(x), F32(y)),
        1 => c!(F32(x), y),
        2 => c!(x, F32(y)),
        _ => c!(x, y),
    }
}
fn class(x: f32) -> usize {
    (if x == 0.0 {
        0
    } else if x.is_nan() {
        3
    } else if x.is_infinite() {
        2
    } else {
        1
    }) + 4 * (x.is_sign_negative() as usize)
}
fn specials() -> Vec<f32> {
    let mut v = vec![];
    for m in [
        0u32, 1, 2, 0x7f_ffff, 0x80_0000, 0x80_0001, 0x00c0_0000, 0x3effffff, 0x3f000000, 0x3f7fffff, 0x3f800000, 0x3f800001, 0x3fc00000, 0x40000000, 0x40490fdb, 0x41200000, 0x4b7fffff,
        0x4b800000, 0x4b800001, 0x4f000000, 0x5f000000, 0x7f000000, 0x7f7ffffe, 0x7f7fffff, 0x7f800000, 0x7fc00000, 0x7f800001, 0x7fffffff,
    ] {
        v.push(f32::from_bits(m));
        v.push(f32::from_bits(m | 1 << 31));
    }
    v
}
/// pairs: specials with each other, all signs and exponents, neighbours, equal magnitudes
fn pair(spec: &[f32], seed: u64, j: u64) -> (f32, f32) {
    let n = spec.len() as u64;
    if j < n * n {
        return (spec[(j / n) as usize], spec[(j % n) as usize]);
    }
    let mut g = Rng(j.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (seed.wrapping_mul(0xD134_2543_DE82_EF95) | 1) | 1);
    g.next();
    let r = g.next();
    let x = f32::from_bits((j as u32 & 0x1ff) << 23 | (r as u32 & 0x7f_ffff));
    let m = (r >> 32) as u32;
    let y = match r >> 60 {
        0 => spec[m as usize % spec.len()],
        1 => f32::from_bits(x.to_bits().wrapping_add(m % 5).wrapping_sub(2)),
        2 => f32::from_bits(x.to_bits() ^ (m & 1) << 31),
        3 => f32::from_bits(x.to_bits().wrapping_add((m % 53) << 23).wrapping_sub(26 << 23)),
        4 => (m % 4097) as f32 - 2048.0,
        _ => f32::from_bits(((j >> 9) as u32 & 0x1ff) << 23 | (m & 0x7f_ffff)),
    };
    (x, y)
}
fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let table = rows::load(&args.req("rows"));
    let head = &table[0];
    assert!(head.list("forms").iter().map(|v| v.str()).eq(FORMS) && head.list("ops").iter().map(|v| v.str()).eq(OPS));
    rep.count("rows", table.len() as u64 - 1);
    let mut res = vec![('?', 9u8); 320];
    let mut cmp = vec![9i64; 64];
    for r in &table[1..] {
        let k = (r.int("xi") * 8 + r.int("yi")) as usize;
        match r.str("fn") {
            "cmp" => cmp[k] = r.int("s"),
            f => res[OPS.iter().position(|o| *o == f).unwrap() * 64 + k] = (r.str("c").chars().next().unwrap(), r.int("s") as u8),
        }
    }
    assert!(res.iter().all(|r| r.1 < 2) && cmp.iter().all(|c| *c < 4));
    let spec = specials();
    let seed = args.seed();
    let fits = |op: usize, x: f32, y: f32, got: f32| {
        let (c, s) = res[op * 64 + class(x) * 8 + class(y)];
        let sg = got.is_sign_negative() as u8;
        (match c {
            'N' => got.is_nan(),
            'Z' => got == 0.0 && sg == s,
            'I' => got.is_infinite() && sg == s,
            '=' => same_bits(got, if s == 0 { x } else { y }) || (op == 1 && s == 1 && same_bits(got, -y)),
            'S' => !got.is_nan() && sg == s,
            _ => !got.is_nan(),
        }) && same_bits(got, ieee(op, x, y))
    };
    let n = if args.thorough() { 1u64 << 32 } else { 1 << 26 };
    for op in 0..5 {
        let (tried, bad) = sweep::sweep(
            if op == 4 { n / 4 } else { n },
            |j| {
                let (x, y) = pair(&spec, seed, j);
                real(op, black_box(x), black_box(y)).iter().all(|r| fits(op, x, y, *r))
            },
            |j, p| {
                let (x, y) = pair(&spec, seed, j);
                if p {
                    format!("{} of {} and {} panics", OPS[op], show(x), show(y))
                } else {
                    let r = real(op, x, y);
                    let k = (0..6).find(|k| !fits(op, x, y, r[*k])).unwrap_or(0);
                    format!("{} of {} and {} in the form {} is {}, not {}", OPS[op], show(x), show(y), FORMS[k], show(r[k]), show(ieee(op, x, y)))
                }
            },
        );
        rep.count("operations", tried * 6);
        bad.into_iter().for_each(|(_, b)| rep.violation(b));
    }
    // comparisons
    let right = |x: f32, y: f32, got: Cmp| {
        let want = match cmp[class(x) * 8 + class(y)] {
            2 => None,
            3 => x.partial_cmp(&y),
            s => Some(s.cmp(&0)),
        };
        let o = |f: fn(Ordering) -> bool| want.is_some_and(f);
        got.1 == want && got.0 == [o(|w| w.is_eq()), !o(|w| w.is_eq()), o(|w| w.is_lt()), o(|w| w.is_le()), o(|w| w.is_gt()), o(|w| w.is_ge())] && want == x.partial_cmp(&y)
    };
    let (tried, bad) = sweep::sweep(
        n,
        |j| {
            let (x, y) = pair(&spec, seed ^ 77, j);
            (0..3).all(|f| right(x, y, compare(f, black_box(x), black_box(y))))
        },
        |j, p| {
            let (x, y) = pair(&spec, seed ^ 77, j);
            let c: Vec<_> = (0..3).map(|f| if p { None } else { Some(compare(f, x, y)) }).collect();
            format!("comparing {} with {} as F32-F32, F32-f32, f32-F32 ([==, !=, <, <=, >, >=], partial_cmp): {c:?}", show(x), show(y))
        },
    );
    rep.count("comparisons", tried * 3);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    // mul_add: fused or not
    let triple = |j: u64| {
        let (x, a) = pair(&spec, seed ^ 5, j);
        let p = x * a;
        let b = match j % 3 {
            0 => pair(&spec, seed ^ 6, j.wrapping_mul(31)).1,
            1 => f32::from_bits((-p).to_bits().wrapping_add((j >> 20) as u32 % 7).wrapping_sub(3)),
            _ => spec[(j / 3) as usize % spec.len()],
        };
        (x, a, b)
    };
    let fma = |x: f32, a: f32, b: f32, r: f32| same_num(r, x * a + b) || same_num(r, x.mul_add(a, b));
    let (tried, bad) = sweep::sweep(
        n / 8,
        |j| {
            let (x, a, b) = triple(j);
            fma(x, a, b, F32(x).mul_add(F32(a), F32(b)).0) && fma(x, a, b, F32Ext::mul_add(x, a, b))
        },
        |j, p| {
            let (x, a, b) = triple(j);
            if p {
                format!("mul_add({}, {}, {}) panics", show(x), show(a), show(b))
            } else {
                format!("mul_add({}, {}, {}) is {} (F32), {} (F32Ext)", show(x), show(a), show(b), show(F32(x).mul_add(F32(a), F32(b)).0), show(F32Ext::mul_add(x, a, b)))
            }
        },
    );
    rep.count("mul_adds", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    // sum and product: every item exactly once
    let mut g = Rng::new(seed, 17);
    let rounds = if args.thorough() { 200_000 } else { 20_000 };
    for i in 0..rounds {
        let long = [255, 256, 257, 1023, 4096, 32_768, 65_535, 65_536, 65_537, 70_001, 131_073];
        let len = if i < 40 { i as usize } else if i % 400 == 0 { long[(i / 400) as usize % long.len()] } else { g.below(if i % 100 == 0 { 600 } else { 40 }) as usize };
        let kind = if len > 600 { 4 } else { i % 4 };
        let xs: Vec<f32> = (0..len)
            .map(|_| match kind {
                0 => g.range(-4000, 4000) as f32 / 4.0,
                1 => g.pick(&spec),
                2 => (g.unit() as f32 - 0.3) * 2f32.powi(g.range(-20, 20) as i32),
                3 => g.pick(&[1.0f32, -1.0, 2.0, 0.5, -0.5, 4.0, 1.5]),
                _ => g.pick(&[1.0f32, -1.0, 1.0]),
            })
            .collect();
        let mut taken = 0;
        let got = sweep::guard(|| xs.iter().map(|x| { taken += 1; F32(*x) }).sum::<F32>().0);
        // left to right, as f32 does it, up to the sign of zeros
        let exact = xs.iter().fold(0f32, |s, x| s + x);
        let ok = got.is_some_and(|s| s == exact || s != s && exact != exact);
        if !ok || taken != len {
            rep.violation(format!("sum() of {:?} ({len} items, {taken} taken) is {got:?}, not {exact:?}", &xs[..len.min(12)]));
        }
        let xs: Vec<f32> = if kind == 0 { (0..len.min(16)).map(|_| g.range(-2, 3) as f32).collect() } else { xs };
        let mut taken = 0;
        let got = sweep::guard(|| xs.iter().map(|x| { taken += 1; F32(*x) }).product::<F32>().0);
        let exact = xs.iter().fold(1f32, |p, x| p * x);
        let ok = got.is_some_and(|p| same_bits(p, exact));
        if !ok || taken != xs.len() {
            rep.violation(format!("product() of {:?} ({} items, {taken} taken) is {got:?}, not {exact:?}", &xs[..xs.len().min(12)], xs.len()));
        }
        rep.count("sums_and_products", 2);
    }
    for (x, y) in [(1.5f32, -0.25f32), (0.0, -1.0), (f32::INFINITY, f32::INFINITY)] {
        if let Some(r) = sweep::guard(|| real(1, x, y)) {
            rep.sample(format!("{x:?} - {y:?} in all forms: {r:?}"));
        }
    }
    rep.finish()
}
