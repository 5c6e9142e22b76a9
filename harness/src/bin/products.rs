//! C22, C24, C27, C28, C29: records products and lengths of vectors and quaternions of f32 components, for spec/ProductsTrace.tla.
//! --fns: which; --events: how many; --trace: where to write.
use harness::delicate::num;
use harness::vecs::{Comp, Vx};
use harness::{out::Report, poly, sweep, Args, Rng};
use micromath::vector::{Vector, Vector2d, Vector3d};
use micromath::{Quaternion, F32};
use std::fmt::Write;

fn list(c: &[f32]) -> String {
    format!("[{}]", c.iter().map(|x| num(*x)).collect::<Vec<_>>().join(","))
}
/// Components: integers, of similar or different sizes, nearly cancelling
fn comps(g: &mut Rng, n: usize, top: i64) -> Vec<f32> {
    let e = g.range(-top, top - 1) as i32;
    let kind = g.below(6);
    (0..n)
        .map(|_| {
            let s = g.pick(&[1.0, -1.0]);
            let m = 1.0 + g.unit();
            (match kind {
                0 => g.range(-40, 40) as f64,
                1 => s * m,
                2 => s * m * 2f64.powi(g.range(-top, top - 1) as i32),
                3 => s * 2f64.powi(e),
                4 if g.below(2) == 0 => 0.0,
                _ => s * m * 2f64.powi((e + g.range(-3, 0) as i32).max(-top as i32)),
            }) as f32
        })
        .collect()
}
fn vector<C: Comp + Into<f32>, V: Vx<C>>(g: &mut Rng, f: &str, text: &mut String, norm: fn(V) -> Option<V>) {
    let n = V::DIM;
    let top = if f == "length" || f == "distance" || f == "normalized" { 60 } else { 61 };
    let x = comps(g, n, top);
    let y = match g.below(4) {
        // nearly parallel, nearly equal
        0 => x.iter().map(|v| v * 3.0).collect(),
        1 => x.iter().map(|v| f32::from_bits((v.to_bits() as i64 + g.range(-2, 2)).max(0) as u32)).collect(),
        _ => comps(g, n, top),
    };
    let make = |c: &[f32]| V::make(&c.iter().map(|v| C::float(*v)).collect::<Vec<C>>());
    let nums = |v: V| v.comps().iter().map(|c| c.num()).collect::<Vec<f32>>();
    let three = |v: Vector3d<C>| v.comps().iter().map(|c| c.num()).collect::<Vec<f32>>();
    let (u, v) = (make(&x), make(&y));
    match f {
        "length" => writeln!(text, "{{\"fn\":\"length\",\"x\":{},\"r\":{}}}", list(&x), num(u.magnitude())),
        "distance" => {
            let d: Vec<f32> = x.iter().zip(&y).map(|(a, b)| a - b).collect();
            writeln!(text, "{{\"fn\":\"distance\",\"x\":{},\"y\":{},\"d\":{},\"r\":{},\"back\":{}}}", list(&x), list(&y), list(&d), num(u.distance(v)), num(v.distance(u)))
        }
        "normalized" => match norm(u) {
            Some(r) => writeln!(text, "{{\"fn\":\"normalized\",\"x\":{},\"m\":{},\"r\":{}}}", list(&x), num(u.magnitude()), list(&nums(r))),
            None => Ok(()),
        },
        _ => {
            let mut all = [0f32; 22];
            all[poly::A..poly::A + n].copy_from_slice(&x);
            all[poly::B..poly::B + n].copy_from_slice(&y);
            let way = g.below(2) == 0;
            let (name, r) = match f {
                "dot" => (format!("dot{n}"), vec![if way { u.dot_fn(v) } else { Vector::dot(u, v) }.num()]),
                "magsq" => (format!("magsq{n}"), vec![u.magnitude_sq().num()]),
                _ if n == 2 && g.below(2) == 0 => {
                    let w = Vector2d { x: u.fields()[0], y: u.fields()[1] };
                    let z = Vector2d { x: v.fields()[0], y: v.fields()[1] };
                    ("perp".to_string(), vec![w.perpendicular_dot(z).num()])
                }
                _ => (format!("cross{n}"), three(if way { u.cross_fn(v) } else { u.cross_op(v) })),
            };
            writeln!(text, "{{\"fn\":\"{name}\",\"x\":{},\"r\":{}}}", list(&all), list(&r))
        }
    }
    .unwrap();
}
fn quaternion(g: &mut Rng, f: &str, text: &mut String) {
    let x: [f32; 4] = comps(g, 4, 30).try_into().unwrap();
    let y: [f32; 4] = if g.below(5) == 0 { x.map(|v| -3.0 * v) } else { comps(g, 4, 30).try_into().unwrap() };
    let (p, q) = (Quaternion::from(x), Quaternion::from(y));
    let mut all = [0f32; 22];
    all[poly::P..poly::P + 4].copy_from_slice(&x);
    all[poly::Q..poly::Q + 4].copy_from_slice(&y);
    let r = match f {
        "qlength" => {
            writeln!(text, "{{\"fn\":\"qlength\",\"x\":{},\"r\":{}}}", list(&x), num(p.magnitude())).unwrap();
            return;
        }
        "qnormalize" | "qinv" => {
            if p.norm() != 0.0 {
                let r = if f == "qinv" { p.inv() } else { p.normalize() };
                writeln!(text, "{{\"fn\":\"{f}\",\"x\":{},\"r\":{}}}", list(&x), list(&r.to_array())).unwrap();
            }
            return;
        }
        "qmul" => (p * q).to_array().to_vec(),
        "qdot" => vec![p.dot(q)],
        "norm" => vec![p.norm()],
        _ => {
            let v = comps(g, 3, 30);
            all[poly::A..poly::A + 3].copy_from_slice(&v);
            let v = Vector3d { x: v[0], y: v[1], z: v[2] };
            let r = if g.below(2) == 0 { q.rotate(v) } else { q * v };
            vec![r.x, r.y, r.z]
        }
    };
    writeln!(text, "{{\"fn\":\"{f}\",\"x\":{},\"r\":{}}}", list(&all), list(&r)).unwrap();
}

fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let count: u64 = args.opt("events").map_or(2_000, |s| s.parse().unwrap()) * if args.thorough() { 20 } else { 1 };
    let names = args.req("fns");
    let fns: Vec<&str> = names.split(',').collect();
    let mut text = String::new();
    for j in 0..count {
        let mut g = Rng::new(args.seed(), 9000 + j);
        let f = g.pick(&fns);
        let mut one = String::new();
        let done = sweep::guard(|| match f {
            "qmul" | "qdot" | "norm" | "rotate" | "qlength" | "qnormalize" | "qinv" => quaternion(&mut g, f, &mut one),
            _ => match g.below(4) {
                0 => vector::<f32, Vector2d<f32>>(&mut g, f, &mut one, |v| Some(v.normalized())),
                1 => vector::<F32, Vector2d<F32>>(&mut g, f, &mut one, |v| Some(v.normalized())),
                2 => vector::<f32, Vector3d<f32>>(&mut g, f, &mut one, |v| Some(v.normalized())),
                _ => vector::<F32, Vector3d<F32>>(&mut g, f, &mut one, |v| Some(v.normalized())),
            },
        });
        if done.is_none() {
            rep.violation(format!("{f} panics, in event {j}, after {}", text.lines().last().unwrap_or("nothing")));
            break;
        }
        text += &one;
    }
    rep.count("products", text.lines().count() as u64);
    std::fs::write(args.req("trace"), &text).unwrap_or_else(|e| harness::die(&format!("{e}")));
    rep.finish()
}
