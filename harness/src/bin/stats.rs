//! C25, C26: statistics of samples, by the rows of spec/StatsMC.tla, exact sums, and histories for StatsTrace.
use harness::{out::Report, rows, same_bits, sweep, vecs::Comp, Args, Rng};
use harness::iters::Table;
use micromath::statistics::{trim, Mean, StdDev, Trim, Variance};
use micromath::F32;
use std::fmt::{Debug, Write};

const U: f64 = 1.0 / 16777216.0;
/// A sample that knows where it comes from
#[derive(Clone, Copy, Debug)]
struct Tagged(f32, u32);
impl From<Tagged> for f32 {
    fn from(t: Tagged) -> f32 {
        t.0
    }
}

/// Statistics of samples in f64, with bounds of what f32 rounding may add or take away
struct Truth {
    n: f64,
    mean: f64,
    mean_tol: f64,
    var: f64,
    var_tol: f64,
    /// do all sums fit?
    mean_fits: bool,
    var_fits: bool,
}
fn truth(x: &[f32]) -> Truth {
    let n = x.len() as f64;
    let (mut sum, mut mag, mut most) = (0f64, 0f64, 0f64);
    for v in x {
        sum += *v as f64;
        mag += (*v as f64).abs();
        most = most.max((*v as f64).abs());
    }
    let mean = sum / n;
    let mean_tol = 1.01 * (n + 1.0) * U * mag / n + 1.5e-45;
    let (mut ss, mut err) = (0f64, 0f64);
    for v in x {
        let d = (*v as f64 - mean).abs();
        let e = mean_tol + U * (d + mean_tol);
        ss += d * d;
        err += 2.0 * d * e + e * e + 1.5e-45 + (n + 3.0) * U * (d + e) * (d + e);
    }
    let var = ss / (n - 1.0);
    Truth { n, mean, mean_tol, var, var_tol: 1.01 * err / (n - 1.0) + 2.0 * U * var + 1.5e-45, mean_fits: mag < 1e38, var_fits: mag < 1e38 && ss + n * most * most < 1e38 }
}

fn shape(g: &mut Rng, n: usize) -> Vec<f32> {
    let e = g.range(-30, 30) as i32;
    let kind = g.below(10);
    let off = g.range(-1000, 1000) as f32;
    let mut x: Vec<f32> = (0..n)
        .map(|_| match kind {
            0 => g.range(-20, 20) as f32,
            1 => g.range(-1000, 1000) as f32,
            2 => (g.unit() as f32 - 0.5) * 2f32.powi(e),
            3 => ((g.unit() - 0.5) * 2f64.powi(g.range(-40, 40) as i32)) as f32,
            4 => off + g.unit() as f32,
            5 => off * 0.1,
            6 => (g.unit() + g.unit() + g.unit() + g.unit() - 2.0) as f32,
            7 => g.range(0, 1) as f32 * 2f32.powi(e),
            8 => off + g.range(-5, 5) as f32 / 16.0,
            _ => g.range(0, 255) as f32,
        })
        .collect();
    if g.below(3) == 0 {
        let i = g.below(n as u64) as usize;
        x[i] = x[i] * g.pick(&[100.0, -30.0, 5.0, 1.5]) + g.pick(&[0.0, 1.0, -7.0, 1e4]);
    }
    x
}
fn gen(seed: u64, j: u64) -> Rng {
    let mut g = Rng(j.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (seed.wrapping_mul(0xD134_2543_DE82_EF95) << 1) | 1);
    g.next();
    g.next();
    g
}
fn size(g: &mut Rng) -> usize {
    match g.below(12) {
        0 => 1,
        1 => 2,
        2..=8 => g.range(3, 12) as usize,
        9 | 10 => g.range(13, 80) as usize,
        _ => g.range(81, 600) as usize,
    }
}

/// mean() through different iterators
struct Hinted<'a> {
    items: &'a [f32],
    at: usize,
    hint: (usize, Option<usize>),
}
impl Iterator for Hinted<'_> {
    type Item = f32;
    fn next(&mut self) -> Option<f32> {
        self.at += 1;
        // an end after the items, and then decoys
        match self.at.cmp(&(self.items.len() + 1)) {
            std::cmp::Ordering::Less => Some(self.items[self.at - 1]),
            std::cmp::Ordering::Equal => None,
            std::cmp::Ordering::Greater => Some(-77.5),
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
fn means(x: &[f32]) -> Vec<f32> {
    let (n, half) = (x.len(), x.len() / 2);
    let mut i = 0;
    let hinted = |hint| Hinted { items: x, at: 0, hint };
    let decoys: Vec<Option<f32>> = x.iter().flat_map(|v| [None, Some(*v), None]).collect();
    let mut twice = hinted((0, None));
    vec![
        x.iter().cloned().mean(),
        x.to_vec().into_iter().mean(),
        std::iter::from_fn(|| {
            i += 1;
            x.get(i - 1).copied()
        })
        .mean(),
        x[..half].iter().chain(x[half..].iter()).copied().mean(),
        // size hints: too much, too little, none, exact, an upper bound
        hinted((0, Some(n))).mean(),
        hinted((0, Some(3 * n + 1))).mean(),
        hinted((0, Some(usize::MAX))).mean(),
        hinted((half, None)).mean(),
        hinted((n, Some(n))).mean(),
        // adaptors that drop items, and know the end by an item
        decoys.iter().filter_map(|v| *v).mean(),
        decoys.iter().filter(|v| v.is_some()).map(|v| v.unwrap()).mean(),
        decoys.iter().flatten().copied().mean(),
        decoys.iter().skip(1).step_by(3).map(|v| v.unwrap()).mean(),
        x.iter().flat_map(|v| [-1.0, *v].into_iter().skip(1)).mean(),
        x.iter().map(Some).chain([None, x.first()]).take_while(|v| v.is_some()).map(|v| *v.unwrap()).mean(),
        x.iter().map(Some).chain([None, x.first()]).scan((), |_, v| v.copied()).mean(),
        [5.0, 6.0].iter().chain(x).skip(2).copied().peekable().mean(),
        (0..n).map(|k| x[k]).inspect(|_| ()).fuse().mean(),
        (&mut twice).mean(),
        (&mut x.iter().copied() as &mut dyn Iterator<Item = f32>).mean(),
    ]
}
fn moments<T: Copy + Into<f32>>(x: &[f32], t: &[T]) -> Option<String> {
    let w = truth(x);
    if w.mean_fits {
        let int = x.iter().all(|v| v.fract() == 0.0) && x.iter().map(|v| v.abs() as f64).sum::<f64>() < 1.0 / U && w.mean.fract() == 0.0;
        for (k, m) in means(x).into_iter().enumerate() {
            if !((m as f64 - w.mean).abs() <= w.mean_tol) || (int && m as f64 != w.mean) {
                return Some(format!("mean() through iterator {k} is {m:?}, not {:?}", w.mean));
            }
        }
    }
    if w.var_fits && x.len() > 1 {
        let (v, vf) = (t.variance(), x.variance());
        let int = x.iter().all(|v| v.fract() == 0.0) && x.iter().map(|v| v.abs() as f64).sum::<f64>() < 1.0 / U && w.mean.fract() == 0.0;
        let ss = w.var * (w.n - 1.0);
        let exact = int && ss < 1.0 / U && ((ss.round() as f32) / (w.n as f32 - 1.0)) as f64 * (w.n - 1.0) == ss.round();
        if !((v as f64 - w.var).abs() <= w.var_tol) || (exact && v != ss.round() as f32 / (w.n as f32 - 1.0)) {
            return Some(format!("variance() is {v:?}, not {:?}", w.var));
        }
        let (s, sf) = (t.stddev(), x.stddev());
        let (lo, hi) = ((w.var - w.var_tol).max(0.0).sqrt() * 0.9999, (w.var + w.var_tol).sqrt() * 1.061 + 2e-19);
        if !(lo <= s as f64 && s as f64 <= hi) {
            return Some(format!("stddev() is {s:?}, not {:?} within 6.1 percent", w.var.sqrt()));
        }
        if !same_bits(v, vf) || !same_bits(s, sf) {
            return Some(format!("variance() and stddev() are {v:?} and {s:?}, but {vf:?} and {sf:?} for the same values in f32"));
        }
    }
    None
}

/// x without its factors of two
fn odd_part(x: f32) -> f64 {
    let mut m = (x.to_bits() & 0x7f_ffff) | if x.abs() < f32::MIN_POSITIVE { 0 } else { 0x80_0000 };
    if m != 0 {
        m >>= m.trailing_zeros();
    }
    m as f64
}
/// 1 keep, 0 drop, 2 either
fn verdict(w: &Truth, x: f32, t: f64) -> u8 {
    let d = (x as f64 - w.mean).abs();
    let slack = w.mean_tol + 1e-4 * d + 1e-44;
    let s = w.var.sqrt();
    let low = (w.var - w.var_tol).max(0.0).sqrt();
    let high = (w.var + w.var_tol).sqrt();
    if !(t > 0.0) || ( d - slack > 1.062 * t * high) {
        0
    } else if t > 0.0 && d + slack < t * low {
        1
    } else if s == 0.0 && (t >= 1.001 || (t > 0.0 && odd_part(x) * w.n <= 1.0 / U)) {
        // all equal: if their sums are exact, the mean is their value; if not, all have the same distance from it, less than one deviation
        1
    } else {
        2
    }
}
fn trims<T: Copy + Debug>(x: &[f32], t: &[T], id: impl Fn(T) -> usize, thr: f32, want: &dyn Fn(usize) -> u8, table: Option<&Table>) -> Option<String>
where
    f32: From<T>,
    T: Into<f32>,
{
    for form in ["trim_at", "new", "trim", "next", "nth", "fold"] {
        let (mut it, shown) = match form {
            "trim" if thr == 2.0 => (t.trim(), "trim()".to_string()),
            "trim" => continue,
            "new" => (trim::Iter::new(t, thr), format!("Iter::new(_, {thr:?})")),
            _ => (Trim::trim_at(&t, thr), format!("trim_at({thr:?})")),
        };
        let mut got = vec![];
        match form {
            "next" => {
                while let Some(v) = it.next() {
                    got.push(id(v));
                    if got.len() > x.len() {
                        return Some(format!("{shown} yields more than {} samples", x.len()));
                    }
                }
            }
            "nth" => {
                while let Some(v) = it.nth(0) {
                    got.push(id(v));
                    if got.len() > x.len() {
                        return Some(format!("{shown} yields more than {} samples", x.len()));
                    }
                }
            }
            "fold" => {
                let hint = it.size_hint();
                let fresh: Vec<usize> = Trim::trim_at(&t, thr).fold(vec![], |mut v, k| {
                    v.push(id(k));
                    v
                });
                it.by_ref().for_each(|v| got.push(id(v)));
                if fresh != got || hint.0 > got.len() || hint.1.is_some_and(|h| h < got.len()) {
                    return Some(format!("{shown}: fold, size_hint {hint:?} and for_each do not agree: {fresh:?}, {got:?}"));
                }
            }
            _ => got = it.by_ref().map(&id).collect(),
        }
        if let (Some(table), "next" | "trim" | "new") = (table, form) {
            // all methods of iterators agree with next()
            let items: Vec<T> = got.iter().filter_map(|g| t.get(*g).copied()).collect();
            if items.len() == got.len() && items.len() <= table.most() {
                let make = || match form {
                    "trim" => t.trim(),
                    "new" => trim::Iter::new(t, thr),
                    _ => Trim::trim_at(&t, thr),
                };
                if let Some(e) = table.agree(make, |a, b| id(a) == id(b), &items) {
                    return Some(format!("{shown}: {e}"));
                }
            }
        }
        for _ in 0..3 {
            if it.next().is_some() {
                return Some(format!("{shown} yields a sample after None"));
            }
        }
        let mut prev: i64 = -1;
        for g in &got {
            if *g as i64 <= prev || *g >= x.len() {
                return Some(format!("{shown} does not keep the order of the samples: positions {got:?}"));
            }
            prev = *g as i64;
        }
        let mut kept = vec![false; x.len()];
        got.iter().for_each(|g| kept[*g] = true);
        for i in 0..x.len() {
            let w = want(i);
            if w != 2 && kept[i] != (w == 1) {
                return Some(format!("{shown} {} sample {i}, {:?}", if kept[i] { "keeps" } else { "drops" }, x[i]));
            }
        }
    }
    None
}
fn thresholds(g: &mut Rng) -> f32 {
    match g.below(8) {
        0 => 2.0,
        1 => 1.0,
        2 => 3.0,
        3 => g.pick(&[0.0, -0.0, f32::NAN, -1.0, -0.5, f32::INFINITY, f32::NEG_INFINITY, 1e-3, 100.0]),
        _ => (g.unit() * 4.0) as f32,
    }
}
/// Small integer samples, as sequences of type T, with the value of a position found by counting
fn typed<T: Comp>(v: &[i64]) -> Option<Vec<T>> {
    v.iter().all(|n| (T::LO..=T::HI).contains(n)).then(|| v.iter().map(|n| T::of(*n)).collect())
}

fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let seed = args.seed();
    let trim_mode = args.req("mode") == "trim";
    let methods = args.opt("methods").map(|p| Table::load(&p));
    // all short sequences, at several scales and in all types
    let table = rows::load(&args.req("rows"));
    rep.count("rows", table.len() as u64);
    let (tried, bad) = sweep::sweep(
        table.len() as u64,
        |j| by_row(&table[j as usize], trim_mode, methods.as_ref()).is_none(),
        |j, p| if p { format!("statistics of {:?} panic", table[j as usize].ints("xs")) } else { by_row(&table[j as usize], trim_mode, methods.as_ref()).unwrap_or_default() },
    );
    rep.count("sequences", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    // random samples
    let n = if args.thorough() { 1u64 << 26 } else { 1 << 21 };
    let check = |j: u64| -> Option<String> {
        let mut g = gen(seed, j);
        let n = size(&mut g).max(if trim_mode { 2 } else { 1 });
        let x = shape(&mut g, n);
        one(&x, &mut g, trim_mode, methods.as_ref())
    };
    let (tried, bad) = sweep::sweep(n, |j| check(j).is_none(), |j, p| if p { format!("statistics of samples {j} panic") } else { check(j).unwrap_or_default() });
    rep.count("samples", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    // long sequences: every sample counts
    let long: Vec<usize> = vec![127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100_000, 131_073, 1 << 18, (1 << 18) + 3];
    let per = if args.thorough() { 200 } else { 12 };
    let check = |j: u64| -> Option<String> {
        let mut g = gen(seed ^ 0x4c4f, j);
        let n = long[j as usize % long.len()];
        let mut x: Vec<f32> = (0..n).map(|_| g.range(-3, 3) as f32).collect();
        if g.below(2) == 0 {
            let i = match g.below(4) {
                0 => n - 1,
                1 => 0,
                _ => g.below(n as u64) as usize,
            };
            // one sample that moves the mean by more than the tolerance
            x[i] = n as f32 * 64.0;
        }
        one(&x, &mut g, trim_mode, methods.as_ref())
    };
    let total = (long.len() * per) as u64;
    let (tried, bad) = sweep::sweep(total, |j| check(j).is_none(), |j, p| if p { format!("statistics of {} samples panic", long[j as usize % long.len()]) } else { check(j).unwrap_or_default() });
    rep.count("long", tried);
    // more samples than 24 (with 2^25), and than 32 bits can count: few that matter, and zeros
    for n in [1u64 << 25, (1 << 32) + (1 << 29)] {
        let total = n as f32;
        let far = 64i8;
        let mut v = vec![0i8; n as usize + 1];
        (v[0], v[n as usize]) = (far, -far);
        let x: &[i8] = &v;
        let var = 2.0 * (far as f32).powi(2) / total;
        let (low, high) = (var.sqrt() * 0.9999, var.sqrt() * 1.061);
        // distance of the outer samples from the mean
        let z = far as f32 / var.sqrt();
        let at = |t: f32| sweep::guard(|| Trim::trim_at(&x, t).next());
        let jobs: Vec<Box<dyn Fn() -> Option<String> + Send + Sync + '_>> = if trim_mode {
            vec![
                // the two outer samples are in the range, or out of it
                Box::new(move || (at(z * 1.001) != Some(Some(far))).then(|| format!("trim_at({}) drops the first of {} samples: {far}, zeros, and {}", z * 1.001, n + 1, -far))),
                Box::new(move || (at(z * 0.93) != Some(Some(0))).then(|| format!("trim_at({}) keeps the first of {} samples: {far}, zeros, and {}", z * 0.93, n + 1, -far))),
            ]
        } else {
            vec![
                Box::new(move || {
                    let m = sweep::guard(|| std::iter::once(total).chain((1..n).map(|_| 0.0f32)).mean());
                    (m != Some(1.0)).then(|| format!("mean() of {total:?} and {} zeros is {m:?}, not 1.0", n - 1))
                }),
                Box::new(move || {
                    let m = sweep::guard(|| x.variance());
                    (!m.is_some_and(|m| (m - var).abs() <= var * 1e-5)).then(|| format!("variance() of {far}, {} zeros, and {} is {m:?}, not {var:?}", n - 1, -far))
                }),
                Box::new(move || {
                    let m = sweep::guard(|| x.stddev());
                    (!m.is_some_and(|m| low <= m && m <= high)).then(|| format!("stddev() of {far}, {} zeros, and {} is {m:?}, not in [{low:?}, {high:?}]", n - 1, -far))
                }),
            ]
        };
        let found: Vec<_> = std::thread::scope(|s| jobs.iter().map(|f| s.spawn(f)).collect::<Vec<_>>().into_iter().filter_map(|h| h.join().unwrap()).collect());
        found.into_iter().for_each(|f| rep.violation(f));
        rep.count("huge", jobs.len() as u64);
    }
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    // histories
    let mut text = String::new();
    let mut g = Rng::new(seed, 25);
    let ev = if args.thorough() { 4000 } else { 700 };
    history::<i8>(&mut rep, &mut g, &mut text, trim_mode, ev);
    history::<i16>(&mut rep, &mut g, &mut text, trim_mode, ev);
    history::<u8>(&mut rep, &mut g, &mut text, trim_mode, ev);
    history::<u16>(&mut rep, &mut g, &mut text, trim_mode, ev);
    history::<f32>(&mut rep, &mut g, &mut text, trim_mode, ev);
    history::<F32>(&mut rep, &mut g, &mut text, trim_mode, ev);
    std::fs::write(args.req("trace"), text).unwrap_or_else(|e| harness::die(&e.to_string()));
    rep.sample(format!("{:?}", shape(&mut gen(seed, 5), 6)));
    rep.finish()
}

fn brief(x: &[f32]) -> String {
    if x.len() <= 24 {
        format!("{x:?}")
    } else {
        format!("{} samples {:?}...", x.len(), &x[..12])
    }
}
fn one(x: &[f32], g: &mut Rng, trim_mode: bool, table: Option<&Table>) -> Option<String> {
    let ints: Vec<i64> = x.iter().map(|v| *v as i64).collect();
    let is_int = x.iter().all(|v| v.fract() == 0.0 && v.abs() < 1e6);
    let r = if trim_mode {
        let w = truth(x);
        if !w.var_fits || x.len() < 2 || (w.var > 0.0 && w.var < 1e-24) {
            return None;
        }
        let t = thresholds(g);
        let tags: Vec<Tagged> = x.iter().enumerate().map(|(i, v)| Tagged(*v, i as u32)).collect();
        let want: Vec<u8> = x.iter().map(|v| verdict(&w, *v, t as f64)).collect();
        trims(x, &tags, |v| v.1 as usize, t, &|i| want[i], table.filter(|_| g.below(8) == 0))
    } else {
        moments(x, x).or_else(|| {
            if !is_int {
                return moments(x, &x.iter().map(|v| F32(*v)).collect::<Vec<_>>());
            }
            typed::<i8>(&ints)
                .and_then(|t| moments(x, &t))
                .or_else(|| typed::<u8>(&ints).and_then(|t| moments(x, &t)))
                .or_else(|| typed::<i16>(&ints).and_then(|t| moments(x, &t)))
                .or_else(|| typed::<u16>(&ints).and_then(|t| moments(x, &t)))
        })
    };
    r.map(|r| format!("{r}: {}", brief(x)))
}
fn by_row(row: &rows::Row, trim_mode: bool, methods: Option<&Table>) -> Option<String> {
    let v = row.ints("xs");
    let n = v.len() as f64;
    let (sum, spread) = (row.int("sum") as f64, row.int("spread") as f64);
    for k in [-40, -20, -3, 0, 1, 7, 20, 40] {
        let f = 2f64.powi(k);
        let x: Vec<f32> = v.iter().map(|n| (*n as f64 * f) as f32).collect();
        let shown = || format!("{x:?}");
        if !trim_mode {
            let m = x.iter().copied().mean() as f64;
            if (m - sum * f / n).abs() > 4.0 * U * sum.abs() * f / n {
                return Some(format!("mean() of {} is {m:?}", shown()));
            }
            if v.len() > 1 {
                let want = spread * f * f / (n * (n - 1.0));
                let (var, sd) = (x.variance() as f64, x.stddev() as f64);
                // up to rounding of the mean, and the approximation of the root
                if (var - want).abs() > 1e-5 * want || sd < want.sqrt() * 0.9999 || sd > want.sqrt() * 1.061 + 2e-19 {
                    return Some(format!("variance() and stddev() of {} are {var:?} and {sd:?}", shown()));
                }
            }
            continue;
        }
        for t in row.list("trims") {
            let t: Vec<i64> = t.list().iter().map(|v| v.int()).collect();
            let thr = t[0] as f32 / 2.0;
            let tags: Vec<Tagged> = x.iter().enumerate().map(|(i, v)| Tagged(*v, i as u32)).collect();
            if let Some(e) = trims(&x, &tags, |v| v.1 as usize, thr, &|i| t[i + 1] as u8, methods.filter(|_| k == 0)) {
                return Some(format!("{e} of {}", shown()));
            }
        }
    }
    None
}

fn history<T: Comp + Into<f32>>(rep: &mut Report, g: &mut Rng, text: &mut String, trim_mode: bool, events: usize)
where
    f32: From<T>,
{
    let mut e = 0;
    while e < events {
        let n = g.range(if trim_mode { 2 } else { 1 }, 8) as usize;
        let lo = if T::LO < 0 { -20 } else { 0 };
        let narrow = g.below(3) == 0;
        let mut v: Vec<i64> = (0..n).map(|_| if narrow { g.range(3, 6) } else { g.range(lo, 20) }).collect();
        if narrow && g.below(2) == 0 {
            v[g.below(n as u64) as usize] = 20;
        }
        let x: Vec<T> = v.iter().map(|n| T::of(*n)).collect();
        writeln!(text, "{{\"ty\":\"{}\",\"op\":\"samples\",\"xs\":{v:?}}}", T::NAME).unwrap();
        e += 1;
        let round = |y: f32, unit: f64| {
            let y = y as f64 * unit;
            if y.abs() < 1e6 { y.round() as i64 } else { 555_555 }
        };
        if !trim_mode {
            match sweep::guard(|| (x.iter().map(|n| f32::from(*n)).mean(), x.variance(), x.stddev())) {
                None => rep.violation(format!("statistics of {x:?} panic")),
                Some((m, va, sd)) => {
                    writeln!(text, "{{\"op\":\"mean\",\"q\":{}}}", round(m, 1024.0)).unwrap();
                    e += 1;
                    if n > 1 {
                        writeln!(text, "{{\"op\":\"variance\",\"q\":{}}}", round(va, 64.0)).unwrap();
                        writeln!(text, "{{\"op\":\"stddev\",\"q\":{}}}", if sd >= 0.0 && sd < 1000.0 { (sd * 8.0).floor() as i64 } else { 9999 }).unwrap();
                        e += 2;
                    }
                }
            }
            continue;
        }
        let mut its: Vec<trim::Iter<T>> = vec![];
        let slice: &[T] = &x;
        for _ in 0..(3 * n + 6) {
            e += 1;
            if its.is_empty() || (its.len() < 3 && g.below(4) == 0) {
                let t = if g.below(3) == 0 { 4 } else { g.range(-1, 8) };
                let form = g.pick(&["trim", "trim_at", "new"]);
                let t = if form == "trim" { 4 } else { t };
                let thr = t as f32 / 2.0;
                match sweep::guard(|| match form {
                    "trim" => Trim::trim(&slice),
                    "new" => trim::Iter::new(slice, thr),
                    _ => Trim::trim_at(&slice, thr),
                }) {
                    Some(it) => its.push(it),
                    None => {
                        rep.violation(format!("{form} of {x:?} panics"));
                        continue;
                    }
                }
                writeln!(text, "{{\"op\":\"trim\",\"form\":\"{form}\",\"id\":{},\"t\":{t}}}", its.len()).unwrap();
            } else {
                let k = g.below(its.len() as u64) as usize;
                match sweep::guard(|| its[k].next()) {
                    Some(r) => writeln!(text, "{{\"op\":\"next\",\"id\":{},\"res\":{}}}", k + 1, r.map_or(99999, |c| c.int())).unwrap(),
                    None => {
                        rep.violation(format!("next() of trim of {x:?} panics"));
                        break;
                    }
                }
            }
        }
    }
    rep.count("events", e as u64);
}
