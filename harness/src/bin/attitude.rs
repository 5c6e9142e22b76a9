//! Records rotations for spec/AttitudeTrace.tla. --ops: axis, euler, between, turn; --events: how many; --trace: where to write.
use harness::delicate::num;
use harness::{out::Report, sweep, vecs::Comp, Args, Rng};
use micromath::vector::Vector3d;
use micromath::{Quaternion, F32};
use std::f64::consts::{FRAC_PI_2, PI};
use std::fmt::Write;

fn list(c: &[f32]) -> String {
    format!("[{}]", c.iter().map(|v| num(*v)).collect::<Vec<_>>().join(","))
}
/// Components of any type: what they are as f32
fn make<C: Comp>(c: [f64; 3]) -> Vector3d<C> {
    let [x, y, z] = c.map(|v| if C::FLOAT { C::float(v as f32) } else { C::of((v as i64).clamp(C::LO, C::HI)) });
    Vector3d { x, y, z }
}
fn nums<C: Comp>(v: Vector3d<C>) -> [f32; 3] {
    [v.x.num() as f32, v.y.num() as f32, v.z.num() as f32]
}
fn scaled(g: &mut Rng, lo: i64, hi: i64) -> f64 {
    let s = g.pick(&[1.0, -1.0]);
    s * (1.0 + g.unit()) * 2f64.powi(g.range(lo, hi) as i32)
}
fn direction(g: &mut Rng) -> [f64; 3] {
    let mut c = [0; 3].map(|_| g.unit() * 2.0 - 1.0);
    match g.below(9) {
        0 | 1 => {
            c = [0.0; 3];
            c[g.below(3) as usize] = g.pick(&[1.0, -1.0]);
        }
        // nearly along an axis
        8 => {
            c = [0; 3].map(|_| g.range(-1, 1) as f64 * 2f64.powi(-g.range(1, 70) as i32));
            c[g.below(3) as usize] = g.pick(&[1.0, -1.0]);
        }
        2 | 3 => c = [0; 3].map(|_| g.range(-3, 3) as f64),
        4 | 5 => c[g.below(3) as usize] = 0.0,
        _ => {}
    }
    c
}
fn axis<C: Comp + Into<f32>>(g: &mut Rng) -> Option<String> {
    let d = direction(g);
    let k = if C::FLOAT {
        match g.below(3) {
            0 => 1.0,
            1 => 1.0 / d.iter().map(|c| c * c).sum::<f64>().sqrt().max(1e-9),
            _ => scaled(g, -30, 30),
        }
    } else {
        C::HI as f64 / 2f64.powi(g.range(0, 7) as i32)
    };
    let v = make::<C>(d.map(|c| c * k));
    let s = g.pick(&[1.0, -1.0]);
    let a = match g.below(6) {
        0 => g.range(-8192, 8192) as f64,
        1 => g.range(-20, 20) as f64 * FRAC_PI_2,
        2 => scaled(g, -40, 12),
        3 => (g.unit() - 0.5) * 16384.0,
        4 => g.range(0, 2600) as f64 * PI * s,
        _ => (g.unit() - 0.5) * 13.0,
    };
    let t = if C::FLOAT { C::float(a as f32) } else { C::of((a as i64).clamp(C::LO, C::HI)) };
    let tf = t.num() as f32;
    if tf.abs() > 8192.0 {
        return Some(String::new());
    }
    let q = sweep::guard(|| Quaternion::axis_angle(v, t).to_array())?;
    Some(format!("{{\"op\":\"axis\",\"v\":{},\"t\":{},\"q\":{}}}\n", list(&nums(v)), num(tf), list(&q)))
}
fn between<C: Comp + Into<f32>>(g: &mut Rng) -> Option<String> {
    let scale = |g: &mut Rng| if C::FLOAT { 2f64.powi(g.range(-12, 15) as i32) } else { C::HI as f64 / 2f64.powi(g.range(0, 7) as i32) };
    let (mut u, k, l) = (direction(g), scale(g), scale(g));
    if g.below(3) == 0 {
        u = u.map(|c| c * (1.0 + g.unit()));
    }
    let v = match g.below(8) {
        0 => u,
        1 => u.map(|c| -c),
        2 | 3 => {
            let s = g.pick(&[1.0, -1.0]);
            let d = 2f64.powi(g.range(-12, 0) as i32);
            let p = direction(g);
            [0, 1, 2].map(|i| s * u[i] + d * p[i])
        }
        4 => [-u[1], u[0], 0.0],
        _ => direction(g),
    };
    let same = g.below(3) == 0;
    let (a, b) = (make::<C>(u.map(|c| c * k)), make::<C>(v.map(|c| c * if same { k } else { l })));
    let q = sweep::guard(|| Quaternion::from_two_vectors(a, b).to_array())?;
    Some(format!("{{\"op\":\"between\",\"u\":{},\"v\":{},\"q\":{}}}\n", list(&nums(a)), list(&nums(b)), list(&q)))
}
fn euler(g: &mut Rng) -> Option<String> {
    let q = match g.below(6) {
        0..=2 => {
            let mut a = [0; 3].map(|_| (g.unit() - 0.5) * 2.0 * PI);
            a[1] /= 2.0;
            let s = g.pick(&[1.0, -1.0]);
            match g.below(5) {
                0 => a[1] = FRAC_PI_2 * s,
                1 => a[1] = (FRAC_PI_2 - 2f64.powi(g.range(-24, -3) as i32)) * s,
                2 => a = a.map(|v| (v / FRAC_PI_2 * 2.0).round() * FRAC_PI_2 / 2.0),
                _ => {}
            }
            let [(sr, cr), (sp, cp), (sy, cy)] = a.map(|v| (v / 2.0).sin_cos());
            [cr * cp * cy + sr * sp * sy, sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy]
        }
        3 => {
            let mut q = [0.0; 4];
            for _ in 0..g.range(1, 3) {
                q[g.below(4) as usize] = g.unit() - 0.5;
            }
            q
        }
        // multiples of 45 degrees, and 120 degrees
        4 => [0; 4].map(|_| g.range(-1, 1) as f64),
        _ => [0; 4].map(|_| g.unit() * 2.0 - 1.0),
    };
    let l = q.iter().map(|c| c * c).sum::<f64>().sqrt();
    if l < 1e-3 {
        return Some(String::new());
    }
    let q = q.map(|c| (c / l) as f32);
    let a = sweep::guard(|| Quaternion::from(q).to_euler())?;
    Some(format!("{{\"op\":\"euler\",\"q\":{},\"a\":{}}}\n", list(&q), list(&[a.0, a.1, a.2])))
}
/// a body turned around its own or the world's axes
fn body(g: &mut Rng) -> Option<String> {
    let mut text = "{\"op\":\"upright\"}\n".to_string();
    let mut acc = Quaternion::IDENTITY;
    for _ in 0..g.range(1, 8) {
        let k = g.below(3) as usize;
        let t = match g.below(4) {
            0 => g.range(-12, 12) as f32 * std::f32::consts::FRAC_PI_4,
            1 => (g.unit() as f32 - 0.5) * 200.0,
            _ => (g.unit() as f32 - 0.5) * 6.4,
        };
        let e = |i: usize| make::<f32>([0, 1, 2].map(|j| (i == j) as u8 as f64));
        let form = g.below(4);
        let (q, axes) = sweep::guard(|| {
            let turn = match form {
                0 => Quaternion::axis_angle(make::<F32>([0, 1, 2].map(|j| (k == j) as u8 as f64)), F32(t)),
                _ => Quaternion::axis_angle(e(k), t),
            };
            let q = turn * acc;
            let q = if form == 1 { q } else { q.normalize() };
            (q, [0, 1, 2].map(|i| if form == 2 { q * e(i) } else { q.rotate(e(i)) }))
        })?;
        acc = q;
        let axes: Vec<String> = axes.iter().map(|v| list(&[v.x, v.y, v.z])).collect();
        writeln!(text, "{{\"op\":\"turn\",\"k\":{},\"t\":{},\"axes\":[{}]}}", k + 1, num(t), axes.join(",")).unwrap();
    }
    Some(text)
}
fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let count: u64 = args.opt("events").map_or(3_000, |s| s.parse().unwrap()) * if args.thorough() { 20 } else { 1 };
    let mut g = Rng::new(args.seed(), 619);
    let list = args.req("ops");
    let ops: Vec<&str> = list.split(',').collect();
    let mut text = String::new();
    let mut n = 0;
    while n < count {
        let op = g.pick(&ops);
        macro_rules! typed {
            ($f:ident) => {
                match g.below(6) {
                    0 => $f::<i8>(&mut g),
                    1 => $f::<i16>(&mut g),
                    2 => $f::<u8>(&mut g),
                    3 => $f::<u16>(&mut g),
                    4 => $f::<F32>(&mut g),
                    _ => $f::<f32>(&mut g),
                }
            };
        }
        let part = match op {
            "axis" => typed!(axis),
            "between" => typed!(between),
            "euler" => euler(&mut g),
            "turn" => body(&mut g),
            _ => harness::die(op),
        };
        let Some(part) = part else {
            rep.violation(format!("{op} panics, after {n} rotations (seed {})", args.seed()));
            break;
        };
        n += part.lines().count() as u64;
        text += &part;
    }
    rep.count("exact_rotations", n);
    std::fs::write(args.req("trace"), &text).unwrap_or_else(|e| harness::die(&format!("{e}")));
    rep.finish()
}
