//! C17, C21, C27: records histories of binary32 arithmetic by F32, and by components of vectors and quaternions, for spec/ArithTrace.tla.
//! --from scalar|vector|quaternion; --events: how many; --trace: where to write.
use harness::delicate::{num, operand, partner};
use harness::vecs::{Comp, Vx};
use harness::{out::Report, sweep, Args, Rng};
use micromath::vector::{Vector2d, Vector3d};
use micromath::{Quaternion, F32};
use std::cmp::Ordering;
use std::fmt::Write;

const OPS: [&str; 5] = ["add", "sub", "mul", "div", "rem"];

struct Log {
    text: String,
    events: u64,
}
impl Log {
    fn event(&mut self, op: &str, form: &str, fields: String, r: f32) {
        self.events += 1;
        writeln!(self.text, "{{\"op\":\"{op}\",\"form\":\"{form}\"{fields},\"r\":{}}}", num(r)).unwrap();
    }
    fn load(&mut self, x: f32) {
        self.event("load", "", String::new(), x)
    }
    fn binary(&mut self, op: &str, form: &str, x: f32, y: f32, r: f32) {
        self.load(x);
        self.event(op, form, format!(",\"dir\":\"l\",\"y\":{}", num(y)), r)
    }
}

macro_rules! forms {
    ($form:expr, $x:expr, $y:expr, $op:tt, $asg:tt) => {{
        let (x, y): (f32, f32) = ($x, $y);
        match $form {
            0 => (F32(x) $op F32(y)).0,
            1 => (F32(x) $op y).0,
            2 => (x $op F32(y)).0,
            3 => { let mut t = F32(x); t $asg F32(y); t.0 }
            4 => { let mut t = F32(x); t $asg y; t.0 }
            _ => { let mut t = x; t $asg F32(y); t }
        }
    }};
}
fn apply(op: usize, form: usize, x: f32, y: f32) -> f32 {
    match op {
        0 => forms!(form, x, y, +, +=),
        1 => forms!(form, x, y, -, -=),
        2 => forms!(form, x, y, *, *=),
        3 => forms!(form, x, y, /, /=),
        _ => match form {
            0 => (F32(x) % F32(y)).0,
            1 => (F32(x) % y).0,
            3 => { let mut t = F32(x); t %= F32(y); t.0 }
            4 => { let mut t = F32(x); t %= y; t.0 }
            _ => (x % F32(y)).0,
        },
    }
}
fn scalar(g: &mut Rng, log: &mut Log) {
    const NAMES: [&str; 6] = ["FF", "Ff", "fF", "FF=", "Ff=", "fF="];
    let mut acc = operand(g);
    if g.below(6) == 0 {
        return folds(g, log, acc);
    }
    log.load(acc);
    for _ in 0..g.range(1, 6) {
        let y = partner(g, acc);
        let form = g.below(6) as usize;
        match g.below(12) {
            0 => {
                acc = (-F32(acc)).0;
                log.event("neg", "F", String::new(), acc)
            }
            1 => {
                // x * y + z with z near to -x * y, or of any size
                let p = acc * y;
                let z = if g.below(2) == 0 { partner(g, -p) } else { partner(g, p) };
                let r = if g.below(2) == 0 { F32(acc).mul_add(F32(y), F32(z)).0 } else { micromath::F32Ext::mul_add(acc, y, z) };
                log.event("mul_add", "F", format!(",\"y\":{},\"z\":{},\"p\":{}", num(y), num(z), num(p)), r);
                acc = r;
            }
            2 => {
                macro_rules! cmp {
                    ($a:expr, $b:expr) => {
                        ($a.partial_cmp(&$b), $a == $b, $a < $b, $a <= $b, $a > $b, $a >= $b)
                    };
                }
                let (c, eq, lt, le, gt, ge) = match form {
                    0 | 3 => cmp!(F32(acc), F32(y)),
                    1 | 4 => cmp!(F32(acc), y),
                    _ => cmp!(acc, F32(y)),
                };
                let c = match c {
                    None => 2,
                    Some(Ordering::Less) => -1,
                    Some(Ordering::Equal) => 0,
                    Some(Ordering::Greater) => 1,
                };
                let b = |t: bool| t as u8;
                log.event("cmp", NAMES[form], format!(",\"y\":{},\"c\":{c},\"eq\":{},\"lt\":{},\"le\":{},\"gt\":{},\"ge\":{}", num(y), b(eq), b(lt), b(le), b(gt), b(ge)), acc)
            }
            _ => {
                let op = g.below(5) as usize;
                let right = g.below(2) == 0;
                let (a, b) = if right { (y, acc) } else { (acc, y) };
                let r = apply(op, form, a, b);
                log.event(OPS[op], NAMES[form], format!(",\"dir\":\"{}\",\"y\":{}", if right { "r" } else { "l" }, num(y)), r);
                acc = r;
            }
        }
        if !acc.is_finite() {
            break;
        }
    }
}
/// sum() and product() of more and more items: each adds (multiplies) the last item to what the ones before it give
fn folds(g: &mut Rng, log: &mut Log, first: f32) {
    let sum = g.below(2) == 0;
    let fold = |items: &[f32]| {
        let i = items.iter().map(|x| F32(*x));
        if sum {
            i.sum::<F32>().0
        } else {
            i.product::<F32>().0
        }
    };
    let mut items = vec![first];
    let mut acc = fold(&items);
    // of one item, up to the sign of a zero
    if acc == first || acc != acc && first != first {
        log.load(acc);
    } else {
        log.binary("add", "of one", first, 0.0, acc);
    }
    for _ in 0..g.range(1, 9) {
        items.push(match g.below(4) {
            0 => -items[g.below(items.len() as u64) as usize],
            1 => partner(g, -acc),
            _ => partner(g, acc),
        });
        let y = items[items.len() - 1];
        acc = fold(&items);
        log.event(if sum { "add" } else { "mul" }, if sum { "sum" } else { "product" }, format!(",\"dir\":\"l\",\"y\":{}", num(y)), acc);
        if !acc.is_finite() {
            break;
        }
    }
}
fn vector<C: Comp, V: Vx<C>>(g: &mut Rng, log: &mut Log) {
    let n = V::DIM;
    let xs: Vec<f32> = (0..n).map(|_| operand(g)).collect();
    let ys: Vec<f32> = xs.iter().map(|&x| partner(g, x)).collect();
    let at = g.below(n as u64) as usize;
    let s = partner(g, xs[at]);
    let make = |c: &[f32]| V::make(&c.iter().map(|&x| C::float(x)).collect::<Vec<C>>());
    let (v, w, k) = (make(&xs), make(&ys), C::float(s));
    let (op, form, r, scale) = match g.below(10) {
        0 => ("add", "V+V", v + w, false),
        1 => ("add", "V+=V", { let mut t = v; t += w; t }, false),
        2 => ("sub", "V-V", v - w, false),
        3 => ("sub", "V-=V", { let mut t = v; t -= w; t }, false),
        4 => ("mul", "V*k", v * k, true),
        5 => ("mul", "V*=k", { let mut t = v; t *= k; t }, true),
        6 => ("mul", "k*V", V::scaled(k, v), true),
        7 => ("div", "V/k", v / k, true),
        8 => ("div", "V/=k", { let mut t = v; t /= k; t }, true),
        _ => ("add", "sum", [v, w].into_iter().sum::<V>(), false),
    };
    for i in 0..n {
        // a sum starts at zero
        let x = if form == "sum" { 0.0 + xs[i] } else { xs[i] };
        log.binary(op, form, x, if scale { s } else { ys[i] }, r.fields()[i].num());
    }
}
fn quaternion(g: &mut Rng, log: &mut Log) {
    let xs: [f32; 4] = std::array::from_fn(|_| operand(g));
    let ys: [f32; 4] = std::array::from_fn(|i| partner(g, xs[i]));
    let at = g.below(4) as usize;
    let s = partner(g, xs[at]);
    let (p, q) = (Quaternion::from(xs), Quaternion::from(ys));
    let (op, form, r, scale) = match g.below(8) {
        0 => ("add", "Q+Q", p + q, false),
        1 => ("add", "Q+=Q", { let mut t = p; t += q; t }, false),
        2 => ("sub", "Q-Q", p - q, false),
        3 => ("sub", "Q-=Q", { let mut t = p; t -= q; t }, false),
        4 => ("mul", "Q*k", p * s, true),
        5 => ("mul", "Q*=k", { let mut t = p; t *= s; t }, true),
        6 => ("mul", "k*Q", s * p, true),
        _ => ("mul", "scale", p.scale(s), true),
    };
    let r = r.to_array();
    for i in 0..4 {
        log.binary(op, form, xs[i], if scale { s } else { ys[i] }, r[i]);
    }
    // the conjugate
    let c = p.conj().to_array();
    for i in 1..4 {
        log.load(xs[i]);
        log.event("neg", "conj", String::new(), c[i]);
    }
}

fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let count: u64 = args.opt("events").map_or(10_000, |s| s.parse().unwrap()) * if args.thorough() { 20 } else { 1 };
    let mut g = Rng::new(args.seed(), 471);
    let mut log = Log { text: String::new(), events: 0 };
    let from = args.req("from");
    while log.events < count {
        let mut one = Log { text: String::new(), events: 0 };
        let mut h = g.clone();
        let done = sweep::guard(|| match from.as_str() {
            "scalar" => scalar(&mut h, &mut one),
            "vector" => match h.below(4) {
                0 => vector::<f32, Vector2d<f32>>(&mut h, &mut one),
                1 => vector::<F32, Vector2d<F32>>(&mut h, &mut one),
                2 => vector::<f32, Vector3d<f32>>(&mut h, &mut one),
                _ => vector::<F32, Vector3d<F32>>(&mut h, &mut one),
            },
            _ => quaternion(&mut h, &mut one),
        });
        if done.is_none() {
            rep.violation(format!("a panic in arithmetic of {from}s, after {}", one.text.lines().last().unwrap_or("nothing")));
            break;
        }
        log.text += &one.text;
        log.events += one.events;
        for _ in 0..8 {
            g.next();
        }
        g = Rng::new(g.next(), 471);
    }
    rep.count("arithmetic_events", log.events);
    std::fs::write(args.req("trace"), &log.text).unwrap_or_else(|e| harness::die(&format!("{e}")));
    rep.finish()
}
