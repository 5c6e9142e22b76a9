//! C16: the results of the machine of spec/Euclid.tla on the real code, and a history of larger divisions for EuclidTrace.
use harness::{out::Report, rows, show, sweep, Args, Rng};
use micromath::{F32Ext, F32};
use std::fmt::Write;

fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let table = rows::load(&args.req("rows"));
    let quad: Vec<(i64, i64, i64, i64)> = table.iter().map(|r| (r.int("x"), r.int("y"), r.int("q"), r.int("r"))).collect();
    rep.count("rows", quad.len() as u64);
    // every row, at every scale at which it is exact
    let scales: Vec<i32> = (-140..=122).collect();
    let n = (quad.len() * scales.len()) as u64;
    let at = |j: u64| {
        let (x, y, q, r) = quad[j as usize % quad.len()];
        let s = 2f64.powi(scales[j as usize / quad.len()]);
        ((x as f64 * s) as f32, (y as f64 * s) as f32, q as f32, (r as f64 * s) as f32)
    };
    let call = |x: f32, y: f32| [F32(x).div_euclid(F32(y)).0, F32Ext::div_euclid(x, y), F32(x).rem_euclid(F32(y)).0, F32Ext::rem_euclid(x, y)];
    let (tried, bad) = sweep::sweep(
        n,
        |j| {
            let (x, y, q, r) = at(j);
            call(x, y) == [q, q, r, r]
        },
        |j, p| {
            let (x, y, q, r) = at(j);
            if p {
                format!("div_euclid or rem_euclid of {} and {} panics", show(x), show(y))
            } else {
                format!("div_euclid, rem_euclid of {} and {} (F32 and F32Ext) are {:?}, not {q:?} and {r:?}", show(x), show(y), call(x, y))
            }
        },
    );
    rep.count("inputs", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    // the history: integers up to 2^24
    let mut g = Rng::new(args.seed(), 16);
    let mut text = String::new();
    let count = if args.thorough() { 100_000 } else { 10_000 };
    let mut done = 0;
    while done < count {
        let mut int = |nz: bool| {
            let k = g.below(25);
            let v = g.range(nz as i64, 1 << k);
            if g.next() & 1 == 0 {
                v
            } else {
                -v
            }
        };
        let (mut x, y) = (int(false), int(true));
        if int(false) % 4 == 0 {
            // next to a multiple
            x = (x / y * y + int(false).signum()).clamp(-1 << 24, 1 << 24);
        }
        match sweep::guard(|| call(x as f32, y as f32)) {
            Some([q, q2, r, r2]) if q == q2 && r == r2 && q.trunc() == q && r.trunc() == r && q.abs() <= 2f32.powi(25) && r.abs() <= 2f32.powi(25) => {
                writeln!(text, "{{\"x\":{x},\"y\":{y},\"q\":{},\"r\":{}}}", q as i64, r as i64).unwrap();
            }
            got => {
                rep.violation(format!("div_euclid, rem_euclid of {x} and {y} (F32 and F32Ext) are {got:?}"));
            }
        }
        done += 1;
    }
    std::fs::write(args.req("trace"), text).unwrap_or_else(|e| harness::die(&e.to_string()));
    rep.count("events", done);
    for j in [5u64, 1000, 100_000] {
        let (x, y, q, r) = at(j);
        rep.sample(format!("{x:?} = {q:?} * {y:?} + {r:?}"));
    }
    rep.finish()
}
