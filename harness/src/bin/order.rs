//! C40: the shapes of spec/Order.tla, on all numbers, cut into chunks as spec/OrderMC.tla describes.
//! --rows: the shapes; --events, --trace: recorded calls for spec/OrderTrace.tla
use harness::delicate::{num, operand, partner};
use harness::{out::Report, rows, show, sweep, Args, Rng};
use micromath::{F32Ext, F32};
use std::collections::BTreeMap;
use std::fmt::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

struct Shape {
    kind: String,
    from: i64,
    to: i64,
    rel: f64,
    abs: f64,
    row: (i64, i64),
}
impl Shape {
    /// by how much other results may exceed this one
    fn excess(&self, v: f32) -> f64 {
        if self.rel == 0.0 {
            self.abs
        } else if v.is_infinite() {
            0.0
        } else {
            self.rel * (v as f64).abs()
        }
    }
    /// less than that, at once
    fn quick(&self, v: f32) -> f32 {
        0.9 * if self.rel == 0.0 { self.abs as f32 } else { self.rel as f32 * v.abs() }
    }
    fn close(&self, a: f32, b: f32) -> bool {
        a == b || ((a as f64) - (b as f64)).abs() <= self.excess(b)
    }
}
fn number(key: i64) -> f32 {
    f32::from_bits(if key < 0 { (-key) as u32 | 1 << 31 } else { key as u32 })
}
/// The function on numbers one after another
fn fill(f: &str, out: &mut [f32], first: i64, turned: bool) {
    let sign = if turned { 1u32 << 31 } else { 0 };
    macro_rules! all {
        ($e:expr) => {{
            let e = $e;
            // keys of negative numbers go down as bits
            let below = (-first).clamp(0, out.len() as i64) as usize;
            for (k, o) in out[..below].iter_mut().enumerate() {
                *o = e(f32::from_bits((first.unsigned_abs() as u32 - k as u32) ^ sign ^ 1 << 31));
            }
            let start = first.max(0) as u32;
            for (k, o) in out[below..].iter_mut().enumerate() {
                *o = e(f32::from_bits((start + k as u32) ^ sign));
            }
        }};
    }
    match f {
        "abs" => all!(|x: f32| F32(x).abs().0),
        "acos" => all!(|x: f32| F32Ext::acos(x)),
        "asin" => all!(|x: f32| F32(x).asin().0),
        "atan" => all!(|x: f32| F32(x).atan().0),
        "atan_norm" => all!(|x: f32| F32(x).atan_norm().0),
        "ceil" => all!(|x: f32| F32(x).ceil().0),
        "cos" => all!(|x: f32| F32(x).cos().0),
        "cosh" => all!(|x: f32| F32(x).cosh().0),
        "exp" => all!(|x: f32| F32(x).exp().0),
        "floor" => all!(|x: f32| F32(x).floor().0),
        "fract" => all!(|x: f32| F32(x).fract().0),
        "inv" => all!(|x: f32| F32(x).inv().0),
        "invsqrt" => all!(|x: f32| F32(x).invsqrt().0),
        "ln" => all!(|x: f32| F32(x).ln().0),
        "log10" => all!(|x: f32| F32(x).log10().0),
        "log2" => all!(|x: f32| F32(x).log2().0),
        "recip" => all!(|x: f32| F32(x).recip().0),
        "round" => all!(|x: f32| F32(x).round().0),
        "signum" => all!(|x: f32| F32(x).signum().0),
        "sin" => all!(|x: f32| F32(x).sin().0),
        "sqrt" => all!(|x: f32| F32(x).sqrt().0),
        "tan" => all!(|x: f32| F32(x).tan().0),
        "trunc" => all!(|x: f32| F32(x).trunc().0),
        _ => harness::die(f),
    }
}
fn one(f: &str, x: f32) -> f32 {
    let mut r = [0f32];
    // keys have no -0
    if x.to_bits() == 1 << 31 {
        fill(f, &mut r, 0, true);
    } else {
        let b = x.to_bits();
        fill(f, &mut r, if b >> 31 == 1 { -((b & 0x7fff_ffff) as i64) } else { b as i64 }, false);
    }
    r[0]
}
fn said(f: &str, x: f32) -> String {
    match sweep::guard(|| one(f, x)) {
        Some(r) => format!("{f}({}) = {}", show(x), show(r)),
        None => format!("{f}({}) panics", show(x)),
    }
}
/// What is kept of a chunk for a shape of order: the highest value and where, the lowest one and where
#[derive(Clone, Copy)]
struct Kept {
    max: f32,
    at: i64,
    low: f32,
    low_at: i64,
}
const NONE: Kept = Kept { max: f32::NEG_INFINITY, at: 0, low: f32::INFINITY, low_at: 0 };
const BLOCK: usize = 1 << 12;
const CHUNK: i64 = 1 << 20;

/// All shapes on the keys lo..=hi: what is kept, or the keys of a pair that breaks one
fn chunk(f: &str, shapes: &[Shape], lo: i64, hi: i64) -> Result<Vec<Kept>, (usize, i64, i64)> {
    let mut kept = vec![NONE; shapes.len()];
    let (mut a, mut b) = (vec![0f32; BLOCK + 1], vec![0f32; BLOCK + 1]);
    let symmetric = shapes.iter().any(|s| s.kind == "odd" || s.kind == "even");
    let mut first = lo;
    while first <= hi {
        // one number more, for steps
        let last = (first + BLOCK as i64 - 1).min(hi);
        let more = (last + 1).min(0x7f80_0000);
        if !shapes.iter().any(|s| s.from <= last && s.to >= first) {
            first = last + 1;
            continue;
        }
        fill(f, &mut a[..=(more - first) as usize], first, false);
        if symmetric && last >= 0 {
            fill(f, &mut b[..=(more - first) as usize], first, true);
        }
        for (i, s) in shapes.iter().enumerate() {
            let (from, to) = (s.from.max(first), s.to.min(last));
            if from > to {
                continue;
            }
            let (j, k) = ((from - first) as usize, (to - first) as usize);
            let key = |p: usize| first + p as i64;
            match s.kind.as_str() {
                "rise" | "fall" => {
                    let turn = if s.kind == "rise" { 1.0f32 } else { -1.0 };
                    let mut q = kept[i];
                    for (p, v) in a[j..=k].iter().enumerate() {
                        let v = turn * v;
                        if v > q.max {
                            (q.max, q.at) = (v, key(j + p));
                        } else if v != q.max && !(v as f64 + s.excess(v) >= q.max as f64) {
                            return Err((i, q.at, key(j + p)));
                        }
                        if v < q.low {
                            (q.low, q.low_at) = (v, key(j + p));
                        }
                    }
                    kept[i] = q;
                }
                "step" => {
                    // as many pairs as begin here and end in the domain
                    let n = k + 1 - j - (to == s.to) as usize;
                    let bad = |(x, y): (&f32, &f32)| !((x - y).abs() <= s.quick(*y)) && !s.close(*x, *y);
                    if let Some(p) = a[j..j + n].iter().zip(&a[j + 1..]).position(bad) {
                        return Err((i, key(j + p), key(j + p + 1)));
                    }
                }
                "odd" | "even" => {
                    let turn = if s.kind == "even" { 1.0f32 } else { -1.0 };
                    let bad = |(x, y): (&f32, &f32)| turn * x != *y && !s.close(turn * x, *y);
                    if let Some(p) = a[j..=k].iter().zip(&b[j..=k]).position(bad) {
                        return Err((i, key(j + p), -key(j + p)));
                    }
                }
                k => harness::die(k),
            }
        }
        first = last + 1;
    }
    Ok(kept)
}
fn says(f: &str, s: &Shape, x: i64, y: i64) -> String {
    let by = if s.rel == 0.0 { format!("{:e}", s.abs) } else { format!("{:e} of the value", s.rel) };
    let other = if x == 0 && y == 0 { -0.0 } else { number(y) };
    let what = match s.kind.as_str() {
        "rise" => "rises",
        "fall" => "falls",
        "step" => "has no jumps",
        "odd" => "is odd",
        _ => "is even",
    };
    format!("{} and {}, but {f} {what} between {:?} and {:?}, up to {by}", said(f, number(x)), said(f, other), number(s.from), number(s.to))
}
fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let table = rows::load(&args.req("rows"));
    let mut fns: BTreeMap<String, Vec<Shape>> = BTreeMap::new();
    for r in &table {
        let part = |k: i64| if k == 0 { 0.0 } else { 2f64.powi(-k as i32) };
        fns.entry(r.str("fn").into()).or_default().push(Shape {
            kind: r.str("kind").into(),
            from: r.int("from"),
            to: r.int("to"),
            rel: part(r.int("rel")),
            abs: part(r.int("abs")),
            row: (r.int("rel"), r.int("abs")),
        });
    }
    rep.count("shapes", table.len() as u64);
    for (f, shapes) in &fns {
        let lo = shapes.iter().map(|s| s.from).min().unwrap();
        let hi = shapes.iter().map(|s| s.to).max().unwrap();
        let chunks = ((hi - lo + CHUNK) / CHUNK) as u64;
        let next = AtomicU64::new(0);
        let done: Mutex<BTreeMap<u64, Vec<Kept>>> = Mutex::default();
        let bad: Mutex<BTreeMap<u64, String>> = Mutex::default();
        std::thread::scope(|t| {
            for _ in 0..sweep::threads() {
                t.spawn(|| loop {
                    let c = next.fetch_add(1, Relaxed);
                    if c >= chunks || bad.lock().unwrap().len() >= 5 {
                        break;
                    }
                    let first = lo + c as i64 * CHUNK;
                    let last = (first + CHUNK - 1).min(hi);
                    match sweep::guard(|| chunk(f, shapes, first, last)) {
                        Some(Ok(k)) => {
                            done.lock().unwrap().insert(c, k);
                        }
                        Some(Err((i, x, y))) => {
                            bad.lock().unwrap().insert(c, says(f, &shapes[i], x, y));
                        }
                        None => {
                            bad.lock().unwrap().insert(c, format!("{f} panics between {} and {}", show(number(first)), show(number(last))));
                        }
                    }
                });
            }
        });
        let (done, bad) = (done.into_inner().unwrap(), bad.into_inner().unwrap());
        let whole = bad.is_empty();
        bad.into_values().for_each(|b| rep.violation(b));
        rep.count("numbers", done.len() as u64 * CHUNK as u64);
        if !whole {
            continue;
        }
        // no chunk is below an earlier one
        for (i, s) in shapes.iter().enumerate().filter(|(_, s)| s.kind == "rise" || s.kind == "fall") {
            let mut max = NONE;
            for k in done.values().map(|k| k[i]) {
                if k.low < max.max && (k.low as f64 + s.excess(k.low)) < max.max as f64 {
                    rep.violation(says(f, s, max.at, k.low_at));
                    break;
                }
                if k.max > max.max {
                    max = k;
                }
            }
        }
    }
    // two arguments
    let n = if args.thorough() { 1 << 31 } else { 1 << 25 };
    let pair = |j: u64| {
        let mut g = Rng::new(args.seed() ^ (j << 16), 740);
        let x = operand(&mut g);
        let y = if g.below(2) == 0 { partner(&mut g, x) } else { operand(&mut g) };
        (x, y)
    };
    let same = |a: f32, b: f32| a == b || a.is_nan() && b.is_nan();
    let hypot = |x: f32, y: f32| F32(x).hypot(F32(y)).0;
    let atan2 = |y: f32, x: f32| F32(y).atan2(F32(x)).0;
    // modulo 2 * pi
    let near = |a: f32, b: f32| (a - b).abs() <= 2f32.powi(-14);
    let turned = |a: f32, b: f32| a.is_nan() && b.is_nan() || near(a, -b) || near(a, b) && near(a.abs(), std::f32::consts::PI);
    let (tried, bad) = sweep::sweep(
        n,
        |j| {
            let (x, y) = pair(j);
            let h = hypot(x, y);
            same(h, hypot(y, x)) && same(h, hypot(-x, y)) && same(h, hypot(x, -y)) && (x == 0.0 || turned(atan2(x, y), atan2(-x, y)))
        },
        |j, p| {
            let (x, y) = pair(j);
            if p {
                format!("hypot or atan2 of {} and {} panics", show(x), show(y))
            } else {
                let h = [hypot(x, y), hypot(y, x), hypot(-x, y), hypot(x, -y)];
                format!("for x = {}, y = {}: hypot(x, y), (y, x), (-x, y), (x, -y) are {h:?}; atan2(x, y), (-x, y) are {:?}", show(x), show(y), [atan2(x, y), atan2(-x, y)])
            }
        },
    );
    rep.count("pairs", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    // recorded calls
    let count: u64 = args.opt("events").map_or(6_000, |s| s.parse().unwrap()) * if args.thorough() { 20 } else { 1 };
    let mut g = Rng::new(args.seed(), 741);
    let names: Vec<&String> = fns.keys().collect();
    let mut text = String::new();
    for _ in 0..count {
        if g.below(12) == 0 {
            let (x, y) = pair(g.next());
            let event = |kind: &str, a: f32, b: f32| format!("{{\"kind\":\"{kind}\",\"x\":{},\"y\":{},\"a\":{},\"b\":{}}}", num(x), num(y), num(a), num(b));
            let got = sweep::guard(|| match g.below(3) {
                0 => event("same", hypot(x, y), hypot(y, x)),
                1 => event("same", hypot(x, y), hypot(-x, -y)),
                _ if x != 0.0 => event("turned", atan2(x, y), atan2(-x, y)),
                _ => event("same", hypot(x, y), hypot(x, -y)),
            });
            match got {
                Some(e) => writeln!(text, "{e}").unwrap(),
                None => rep.violation(format!("hypot or atan2 of {} and {} panics", show(x), show(y))),
            }
            continue;
        }
        let f = g.pick(&names);
        let s = &fns[f.as_str()][g.below(fns[f.as_str()].len() as u64) as usize];
        // keys near and far, and near the ends, one and powers of two
        let span = s.to - s.from;
        let mut key = || {
            let any = s.from + (g.next() % (span as u64 + 1)) as i64;
            let k = match g.below(6) {
                0 => s.from + g.range(0, 9),
                1 => s.to - g.range(0, 9),
                2 => (any >> 23 << 23) + g.range(-2, 2),
                3 => 0x3f80_0000 * g.pick(&[1, -1]) + g.range(-2, 2),
                4 => (0x3f80_0000 + g.range(-0x0800_0000, 0x0400_0000)) * g.pick(&[1, -1]),
                _ => any,
            };
            k.clamp(s.from, s.to)
        };
        let (k, far) = (key(), key());
        let (x, y) = match s.kind.as_str() {
            "odd" | "even" => (number(k), -number(k)),
            "step" => (number(k.min(s.to - 1)), number(k.min(s.to - 1) + 1)),
            _ => {
                let other = if g.below(2) == 0 { far } else { (k + g.range(1, 9)).min(s.to) };
                if other == k {
                    continue;
                }
                (number(k.min(other)), number(k.max(other)))
            }
        };
        match sweep::guard(|| (one(f, x), one(f, y))) {
            Some((a, b)) => writeln!(
                text,
                "{{\"fn\":\"{f}\",\"kind\":\"{}\",\"from\":{},\"abs\":{},\"rel\":{},\"x\":{},\"y\":{},\"a\":{},\"b\":{}}}",
                s.kind, s.from, s.row.1, s.row.0, num(x), num(y), num(a), num(b)
            )
            .unwrap(),
            None => rep.violation(format!("{f} of {} or {} panics", show(x), show(y))),
        }
    }
    std::fs::write(args.req("trace"), text).unwrap();
    for f in ["sqrt", "exp"] {
        rep.sample(format!("{}, {}", said(f, 2.0), said(f, f32::from_bits(0x4000_0001))));
    }
    rep.finish()
}
