//! C27-C31: quaternions, by the polynomials of spec/Poly.tla, the rows of spec/QuatMC.tla, and histories for QuatTrace.
use harness::{out::Report, poly, poly::Polys, reference::Reference, rows, rows::Row, same_bits, sweep, vecs::Comp, Args, Rng};
use micromath::vector::Vector3d;
use micromath::{Quaternion, F32};
use std::fmt::Write;

struct Ctx {
    polys: Polys,
    table: Vec<Row>,
    seed: u64,
    thorough: bool,
}
impl Ctx {
    fn bound(&self, k: &str) -> f64 {
        self.table[0].int(k) as f64 / 10_000.0
    }
    fn tries(&self, quick: u32, thorough: u32) -> u64 {
        1 << if self.thorough { thorough } else { quick }
    }
}
fn gen(seed: u64, j: u64) -> Rng {
    let mut g = Rng(j.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (seed.wrapping_mul(0xD134_2543_DE82_EF95) << 1) | 1);
    g.next();
    g.next();
    g
}
type Q4 = [f32; 4];
fn of(c: Q4) -> Quaternion {
    Quaternion::new(c[0], c[1], c[2], c[3])
}
/// What each accessor says
fn wxyz(q: Quaternion) -> Q4 {
    [q.w(), q.x(), q.y(), q.z()]
}
fn wide(c: &[f32]) -> Vec<f64> {
    c.iter().map(|v| *v as f64).collect()
}
fn len(c: &[f64]) -> f64 {
    c.iter().map(|v| v * v).sum::<f64>().sqrt()
}
fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(a, b)| a * b).sum()
}
fn scaled(g: &mut Rng, lo: i64, hi: i64) -> f32 {
    let s = if g.below(2) == 0 { 1.0 } else { -1.0 };
    (s * (1.0 + g.unit()) * 2f64.powi(g.range(lo, hi - 1) as i32)) as f32
}
/// Components: small integers, of similar size, sparse, of any size, unit quaternions
fn quat(g: &mut Rng) -> Q4 {
    let kind = g.below(8);
    let e = g.range(-30, 29);
    let mut q = [0f32; 4];
    for c in &mut q {
        *c = match kind {
            0 | 1 => g.range(-12, 12) as f32,
            2 => (g.unit() * 2.0 - 1.0) as f32,
            3 => {
                let low = if g.below(4) == 0 { -60 } else { -30 };
                scaled(g, low, 30)
            }
            4 => scaled(g, e, e + 1),
            5 => scaled(g, e - 2, e + 1) * if g.below(2) == 0 { 0.0 } else { 1.0 },
            6 => g.range(-200, 200) as f32 / 8.0,
            _ => 0.0,
        };
    }
    if kind == 7 {
        q = unit(g);
    }
    q
}
fn unit64(g: &mut Rng) -> [f64; 4] {
    // nearly one of the units
    if g.below(16) == 0 {
        let mut c = [0; 4].map(|_| g.range(-1, 1) as f64 * 2f64.powi(-g.range(1, 60) as i32));
        c[g.below(4) as usize] = if g.below(2) == 0 { 1.0 } else { -1.0 };
        let l = len(&c);
        return c.map(|v| v / l);
    }
    loop {
        let c = [0; 4].map(|_| g.unit() * 2.0 - 1.0);
        let l = len(&c);
        if l > 0.1 && l <= 1.0 {
            return c.map(|v| v / l);
        }
    }
}
fn unit(g: &mut Rng) -> Q4 {
    unit64(g).map(|v| v as f32)
}
fn vars(a: Option<[f64; 3]>, k: f64, p: Option<Q4>, q: Option<Q4>) -> [f64; 22] {
    let mut x = [0f64; 22];
    if let Some(a) = a {
        x[poly::A..poly::A + 3].copy_from_slice(&a);
    }
    x[poly::K] = k;
    for (at, v) in [(poly::P, p), (poly::Q, q)] {
        if let Some(v) = v {
            (0..4).for_each(|i| x[at + i] = v[i] as f64);
        }
    }
    x
}

// --- C27 ---
fn whole(x: &[f64; 22]) -> bool {
    x.iter().all(|v| v.fract() == 0.0 && v.abs() <= 1000.0)
}
fn judge(cx: &Ctx, name: &str, x: &[f64; 22], got: &[f32]) -> bool {
    let terms = cx.polys.get(name);
    let ints = whole(x);
    terms.len() == got.len()
        && terms.iter().zip(got).all(|(t, r)| {
            poly::near(t, x, *r)
                && (!ints || {
                    let (want, mag) = poly::real(t, x);
                    mag > 16777216.0 || *r as f64 == want
                })
        })
}
fn algebra(rep: &mut Report, cx: &Ctx) {
    let pick = |j: u64| {
        let mut g = gen(cx.seed, j);
        let any = g.below(12) == 0;
        let (mut p, mut q) = (quat(&mut g), quat(&mut g));
        if any {
            p = p.map(|_| f32::from_bits(g.u32()));
            if g.below(2) == 0 {
                q = q.map(|_| f32::from_bits(g.u32()));
            }
        }
        let k = match g.below(4) {
            3 => g.pick(&[0.0, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MIN_POSITIVE, f32::MAX]),
            0 => g.range(-9, 9) as f32,
            1 => scaled(&mut g, -20, 20),
            _ => (g.unit() * 2.0 - 1.0) as f32,
        };
        (p, q, k)
    };
    let check = |(p, q, k): (Q4, Q4, f32)| -> Option<String> {
        let x = vars(None, k as f64, Some(p), Some(q));
        let (a, b) = (of(p), of(q));
        let fail = |what: &str, got: &dyn std::fmt::Debug| Some(format!("{what} of p = {p:?}, q = {q:?}, k = {k:?} gives {got:?}"));
        let arr = |q: Quaternion| q.to_array();
        let m = arr(a * b);
        if !judge(cx, "qmul", &x, &m) {
            return fail("p * q", &m);
        }
        let mut s = a;
        s += b;
        for r in [arr(a + b), arr(s)] {
            if !judge(cx, "qadd", &x, &r) || !(0..4).all(|i| same_bits(r[i], p[i] + q[i])) {
                return fail("p + q or p += q", &r);
            }
        }
        s = a;
        s -= b;
        for r in [arr(a - b), arr(s)] {
            if !judge(cx, "qsub", &x, &r) || !(0..4).all(|i| same_bits(r[i], p[i] - q[i])) {
                return fail("p - q or p -= q", &r);
            }
        }
        s = a;
        s *= k;
        for r in [arr(a * k), arr(k * a), arr(a.scale(k)), arr(a.scale(F32(k))), arr(s)] {
            if !judge(cx, "qscale", &x, &r) || !(0..4).all(|i| same_bits(r[i], p[i] * k)) {
                return fail("scale, p * k, k * p or p *= k", &r);
            }
        }
        let c = arr(a.conj());
        let want = [p[0], -p[1], -p[2], -p[3]];
        if !(0..4).all(|i| same_bits(c[i], want[i])) || !judge(cx, "conj", &x, &c) {
            return fail("conj", &c);
        }
        let d = a.dot(b);
        if !judge(cx, "qdot", &x, &[d]) {
            return fail("dot", &d);
        }
        let n = a.norm();
        if !judge(cx, "norm", &x, &[n]) {
            return fail("norm", &n);
        }
        // values and order
        let t: (f32, f32, f32, f32) = a.into();
        let back: [f32; 4] = a.into();
        let forms = [
            wxyz(a),
            arr(a),
            back,
            [t.0, t.1, t.2, t.3],
            arr(Quaternion::from(p)),
            arr(Quaternion::from((p[0], p[1], p[2], p[3]))),
            arr(Quaternion::from(t)),
        ];
        for (i, f) in forms.iter().enumerate() {
            if !(0..4).all(|i| same_bits(f[i], p[i])) {
                return fail(&format!("conversion {i}"), f);
            }
        }
        if !p.iter().any(|v| v.is_nan()) && (a != of(p) || (a == b) != (0..4).all(|i| p[i] == q[i])) {
            return fail("comparison", &(a == b));
        }
        let v = arr(Quaternion::from(Vector3d { x: p[1], y: p[2], z: p[3] }));
        let f = arr(Quaternion::from(Vector3d { x: F32(p[1]), y: F32(p[2]), z: F32(p[3]) }));
        if !(1..4).all(|i| same_bits(v[i], p[i]) && same_bits(f[i], p[i])) || v[0] != 0.0 || f[0] != 0.0 {
            return fail("From<Vector3d>", &v);
        }
        None
    };
    let (tried, bad) = sweep::sweep(cx.tries(25, 31), |j| check(pick(j)).is_none(), |j, p| if p { format!("algebra of {:?} panics", pick(j)) } else { check(pick(j)).unwrap_or_default() });
    rep.count("pairs", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    if Quaternion::default().to_array() != [1.0, 0.0, 0.0, 0.0] || Quaternion::IDENTITY.to_array() != [1.0, 0.0, 0.0, 0.0] {
        rep.violation("IDENTITY or default is not (1, 0, 0, 0)".into());
    }
    macro_rules! ints {
        ($($t:ident)*) => {$(
            for a in i64::from($t::MIN)..=i64::from($t::MAX) {
                let (x, y, z) = (a as $t, (a * 7 + 3) as $t, (a * 31 + 11) as $t);
                let q = Quaternion::from(Vector3d { x, y, z }).to_array();
                if q != [0.0, x as f32, y as f32, z as f32] {
                    rep.violation(format!("Quaternion::from(({x}, {y}, {z})) of {} is {q:?}", stringify!($t)));
                }
                rep.count("vectors", 1);
            }
        )*};
    }
    ints!(i8 i16 u8 u16);
}

// --- C28 ---
fn lengths(rep: &mut Report, cx: &Ctx) {
    let (lo, hi, un, iv) = (cx.bound("maglow"), cx.bound("maghigh"), cx.bound("unit"), cx.bound("inv"));
    let pick = |j: u64| {
        let mut g = gen(cx.seed ^ 28, j);
        match g.below(12) {
            0 => [0; 4].map(|_| f32::from_bits(g.u32())),
            1 => [0; 4].map(|_| if g.below(3) == 0 { scaled(&mut g, -80, -60) } else { 0.0 }),
            _ => quat(&mut g),
        }
    };
    let check = |p: Q4| -> Option<String> {
        let a = of(p);
        let fail = |what: &str, got: &dyn std::fmt::Debug| Some(format!("{what} of {p:?} is {got:?}"));
        let (nz, n, i) = (a.norm() == 0.0, sweep::guard(|| a.normalize()), sweep::guard(|| a.inv()));
        if n.is_none() != nz || i.is_none() != nz {
            return fail("normalize() and inv() panic exactly if norm() is 0, but that", &(a.norm(), n.is_none(), i.is_none()));
        }
        let c = wide(&p);
        let most = c.iter().fold(0f64, |m, v| m.max(v.abs()));
        if p.iter().any(|v| v.is_nan()) || !(2f64.powi(-30)..=2f64.powi(30)).contains(&most) {
            return None;
        }
        let l = len(&c);
        let m = a.magnitude() as f64;
        if !(m >= l * lo && m <= l * hi) {
            return fail("magnitude()", &m);
        }
        // all components scaled by one positive factor
        let along = |r: &[f64], of: &[f64]| {
            let k = dot(r, of) / dot(of, of);
            (k > 0.0 && (0..4).all(|i| (r[i] - k * of[i]).abs() <= 2f64.powi(-21) * (k * of[i]).abs() + 1e-43)).then_some(k)
        };
        let r = wide(&n?.to_array());
        match along(&r, &c) {
            Some(k) if (k * l - 1.0).abs() <= un => {}
            _ => return fail("normalize()", &r),
        }
        let r = wide(&i?.to_array());
        match along(&r, &[c[0], -c[1], -c[2], -c[3]]) {
            Some(k) if (k * l * l - 1.0).abs() <= iv => {}
            _ => return fail("inv()", &r),
        }
        None
    };
    let (tried, bad) = sweep::sweep(cx.tries(26, 32), |j| check(pick(j)).is_none(), |j, p| if p { format!("lengths of {:?} panic", pick(j)) } else { check(pick(j)).unwrap_or_default() });
    rep.count("quaternions", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    for z in [0.0f32, -0.0] {
        let q = Quaternion::new(z, 0.0, -z, z);
        if sweep::guard(|| q.normalize()).is_some() || sweep::guard(|| q.inv()).is_some() {
            rep.violation("normalize() or inv() of the zero quaternion does not panic".into());
        }
    }
    for r in &cx.table[1..] {
        let q: Vec<i64> = r.ints("q");
        for k in [-30i64, -29, -12, -1, 0, 1, 2, 13, 28] {
            let p = [0, 1, 2, 3].map(|i| (q[i] as f64 * 2f64.powi(k as i32)) as f32);
            if let Some(e) = check(p) {
                rep.violation(e);
            }
            rep.count("orientations", 1);
        }
    }
}

// --- C29 ---
fn vector<C: Comp>(g: &mut Rng) -> Vector3d<C> {
    let kind = g.below(4);
    let mut c = || -> C {
        if C::FLOAT {
            C::float(match kind {
                0 => g.range(-20, 20) as f32,
                1 => (g.unit() * 2.0 - 1.0) as f32,
                2 => scaled(g, -30, 30),
                _ => scaled(g, -30, 30) * if g.below(2) == 0 { 0.0 } else { 1.0 },
            })
        } else {
            C::of(match kind {
                0 => g.range(C::LO.max(-9), 9),
                1 => g.pick(&[C::LO, C::HI, C::LO + 1, C::HI - 1, 0, 1]),
                _ => g.range(C::LO, C::HI),
            })
        }
    };
    Vector3d { x: c(), y: c(), z: c() }
}
fn nums<C: Comp>(v: Vector3d<C>) -> [f64; 3] {
    [v.x.num() as f64, v.y.num() as f64, v.z.num() as f64]
}
fn rotation<C: Comp + Into<f32>>(rep: &mut Report, cx: &Ctx, rf: &Reference) {
    let terms = cx.polys.get("rotate");
    let pick = |j: u64| {
        let mut g = gen(cx.seed ^ 29, j);
        let q = if g.below(2) == 0 { unit(&mut g) } else { quat(&mut g) };
        (q, vector::<C>(&mut g))
    };
    let check = |(q, v): (Q4, Vector3d<C>)| -> Option<String> {
        let x = vars(Some(nums(v)), 0.0, None, Some(q));
        let ints = whole(&x);
        let (r, s) = (of(q).rotate(v), of(q) * v);
        for r in [r, s] {
            for (t, c) in terms.iter().zip([r.x, r.y, r.z]) {
                let (want, mag) = poly::real(t, &x);
                // 12 roundings of products and sums; sums of squares may be of any order
                let ok = mag > 1e38 || (c as f64 - want).abs() <= mag * 14.0 / 16777216.0 + 1e-43 * (1.0 + x[poly::A].abs() + x[poly::A + 1].abs() + x[poly::A + 2].abs());
                if !ok || (ints && mag < 16777216.0 && c as f64 != want) {
                    return Some(format!("({q:?}).rotate({v:?}) is {r:?}, where {want:?} is right"));
                }
            }
        }
        None
    };
    let (tried, bad) = sweep::sweep(cx.tries(24, 29), |j| check(pick(j)).is_none(), |j, p| if p { format!("rotate of {:?} panics", pick(j)) } else { check(pick(j)).unwrap_or_default() });
    rep.count("rotations", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    let tol = cx.bound("angle");
    let pick = |j: u64| {
        let mut g = gen(cx.seed ^ 2900, j);
        let v = vector::<C>(&mut g);
        let t: C = if C::FLOAT {
            C::float(match g.below(5) {
                0 => g.range(-8192, 8192) as f32,
                1 => (g.range(-16, 16) as f64 * rf.half_pi / 2.0) as f32,
                2 => scaled(&mut g, -40, 13),
                3 => ((g.unit() - 0.5) * 13.0) as f32,
                _ => ((g.unit() - 0.5) * 16384.0) as f32,
            })
        } else {
            C::of(match g.below(3) {
                0 => g.range(C::LO.max(-10), 10),
                1 => g.pick(&[C::LO.max(-8192), C::HI.min(8192), 0, 1]),
                _ => g.range(C::LO.max(-8192), C::HI.min(8192)),
            })
        };
        (v, t)
    };
    let check = |(v, t): (Vector3d<C>, C)| -> Option<String> {
        let q = Quaternion::axis_angle(v, t).to_array();
        let (c, s) = rf.cos_sin(t.num() as f64 / 2.0);
        let n = nums(v);
        let ok = (q[0] as f64 - c).abs() <= tol && (0..3).all(|i| (q[i + 1] as f64 - s * n[i]).abs() <= tol * n[i].abs() + 1e-44);
        (!ok).then(|| format!("axis_angle({v:?}, {t:?}) is {q:?}, not cos = {c:?}, sin = {s:?} times the axis"))
    };
    let (tried, bad) = sweep::sweep(cx.tries(24, 29), |j| check(pick(j)).is_none(), |j, p| if p { format!("axis_angle of {:?} panics", pick(j)) } else { check(pick(j)).unwrap_or_default() });
    rep.count("angles", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
}
fn orientations(rep: &mut Report, cx: &Ctx) {
    // the rows: 48 quaternions of 24 orientations, as unit quaternions
    for r in &cx.table[1..] {
        let (q, norm) = (r.ints("q"), r.int("norm") as f64);
        let u = of([0, 1, 2, 3].map(|i| (q[i] as f64 / norm.sqrt()) as f32));
        let m: Vec<Vec<i64>> = r.list("m").iter().map(|v| v.list().iter().map(|v| v.int()).collect()).collect();
        for j in 0..3 {
            let e = |i: usize| if i == j { 1i16 } else { 0 };
            let v = u.rotate(Vector3d { x: e(0), y: e(1), z: e(2) });
            if ![v.x, v.y, v.z].iter().zip(&m).all(|(c, row)| (*c as f64 - row[j] as f64).abs() < 1e-6) {
                rep.violation(format!("({u:?}).rotate(unit {j}) is {v:?}"));
            }
            rep.count("orientations", 1);
        }
    }
}
fn turns(cx: &Ctx, text: &mut String, rf: &Reference) {
    let mut g = Rng::new(cx.seed, 29);
    for _ in 0..(if cx.thorough { 400 } else { 40 }) {
        writeln!(text, "{{\"op\":\"start\"}}").unwrap();
        let mut q = Quaternion::default();
        for _ in 0..20 {
            let (axis, k) = (g.below(3) as usize, g.below(4) as i64);
            let full = g.range(-3, 3);
            let e = |i: usize| if i == axis { 1.0 } else { 0.0 };
            let v = Vector3d { x: e(0), y: e(1), z: e(2) };
            let theta = ((k + 4 * full) as f64 * rf.half_pi) as f32;
            q = if g.below(2) == 0 { Quaternion::axis_angle(v, theta) * q } else { Quaternion::axis_angle(Vector3d { x: F32(v.x), y: F32(v.y), z: F32(v.z) }, F32(theta)) * q };
            q = q.normalize();
            let mut basis = vec![];
            for j in 0..3 {
                let e = |i: usize| if i == j { 1.0 } else { 0.0 };
                let r = q.rotate(Vector3d { x: e(0), y: e(1), z: e(2) });
                basis.push([r.x, r.y, r.z].map(|c| if c.abs() < 100.0 { c.round() as i64 } else { 777 }));
            }
            writeln!(text, "{{\"op\":\"turn\",\"axis\":{},\"k\":{k},\"basis\":{basis:?}}}", axis + 1).unwrap();
        }
    }
}
fn history(rep: &mut Report, cx: &Ctx, text: &mut String, rotate: bool) {
    let mut g = Rng::new(cx.seed, 27);
    let mut acc = [1i64, 0, 0, 0];
    let ints = |a: [f32; 4]| a.map(|c| harness::vecs::exact_int(c));
    let f = |a: [i64; 4]| of(a.map(|c| c as f32));
    let mut e = 0;
    let limit = if rotate { 20 } else { 500 };
    while e < if cx.thorough { 40_000 } else { 4000 } {
        let v = [0; 4].map(|_| g.range(-12, 12));
        let (a, b) = (f(acc), f(v));
        let k = g.range(-6, 6);
        let which = g.below(if rotate { 16 } else { 12 });
        let line = sweep::guard(|| -> (String, [i64; 4]) {
            match which {
                0 => {
                    let form = g.pick(&["new", "tuple", "array"]);
                    let t = v.map(|c| c as f32);
                    let q = match form {
                        "new" => b,
                        "tuple" => (t[0], t[1], t[2], t[3]).into(),
                        _ => t.into(),
                    };
                    (format!("\"op\":\"new\",\"form\":\"{form}\",\"v\":{v:?}"), ints(q.to_array()))
                }
                1 => {
                    let q: Quaternion = if g.below(2) == 0 {
                        Vector3d { x: v[0] as i8, y: v[1] as i8, z: v[2] as i8 }.into()
                    } else {
                        Vector3d { x: v[0] as f32, y: v[1] as f32, z: v[2] as f32 }.into()
                    };
                    (format!("\"op\":\"vector\",\"v\":{:?}", &v[..3]), ints(q.to_array()))
                }
                2 => {
                    let form = g.pick(&["IDENTITY", "default"]);
                    let q = if form == "default" { Quaternion::default() } else { Quaternion::IDENTITY };
                    (format!("\"op\":\"one\",\"form\":\"{form}\""), ints(q.to_array()))
                }
                3 => {
                    let form = g.pick(&["to_array", "wxyz", "tuple", "array", "copy"]);
                    let out = match form {
                        "to_array" => a.to_array(),
                        "wxyz" => wxyz(a),
                        "tuple" => {
                            let t: (f32, f32, f32, f32) = a.into();
                            [t.0, t.1, t.2, t.3]
                        }
                        "array" => a.into(),
                        _ => {
                            let c = a;
                            c.to_array()
                        }
                    };
                    (format!("\"op\":\"back\",\"form\":\"{form}\""), ints(out))
                }
                4 | 5 => {
                    let sub = g.below(2) == 1;
                    let assign = g.below(2) == 1;
                    let mut q = a;
                    match (sub, assign) {
                        (false, false) => q = a + b,
                        (false, true) => q += b,
                        (true, false) => q = a - b,
                        (true, true) => q -= b,
                    }
                    let form = format!("{}{}", if sub { "-" } else { "+" }, if assign { "=" } else { "" });
                    (format!("\"op\":\"{}\",\"form\":\"{form}\",\"v\":{v:?}", if sub { "sub" } else { "add" }), ints(q.to_array()))
                }
                6 | 7 => {
                    let left = g.below(2) == 0;
                    let q = if left { a * b } else { b * a };
                    (format!("\"op\":\"mul\",\"form\":\"{}\",\"v\":{v:?}", if left { "left" } else { "right" }), ints(q.to_array()))
                }
                8 => {
                    let form = g.pick(&["scale", "q*k", "k*q", "*="]);
                    let mut q = a;
                    match form {
                        "scale" if g.below(2) == 0 => q = a.scale(k as i8),
                        "scale" => q = a.scale(k as f32),
                        "q*k" => q = a * k as f32,
                        "k*q" => q = k as f32 * a,
                        _ => q *= k as f32,
                    }
                    (format!("\"op\":\"scale\",\"form\":\"{form}\",\"k\":{k}"), ints(q.to_array()))
                }
                9 => ("\"op\":\"conj\"".into(), ints(a.conj().to_array())),
                10 => (format!("\"op\":\"dot\",\"v\":{v:?},\"res\":{}", harness::vecs::exact_int(a.dot(b))), acc),
                11 => (format!("\"op\":\"norm\",\"res\":{}", harness::vecs::exact_int(a.norm())), acc),
                _ => {
                    let w = Vector3d { x: v[0] as i16, y: v[1] as i16, z: v[2] as i16 };
                    let wf = Vector3d { x: v[0] as f32, y: v[1] as f32, z: v[2] as f32 };
                    let (form, r) = match g.below(4) {
                        0 => ("rotate", a.rotate(w)),
                        1 => ("rotate", a.rotate(wf)),
                        2 => ("*", a * w),
                        _ => ("*", a * wf),
                    };
                    let r = [r.x, r.y, r.z].map(harness::vecs::exact_int);
                    (format!("\"op\":\"rotate\",\"form\":\"{form}\",\"v\":{:?},\"res\":{r:?}", &v[..3]), acc)
                }
            }
        });
        match line {
            Some((l, out)) => {
                // what does not fit (unless the code is wrong) is not recorded
                if out.iter().any(|c| c.abs() > limit && *c != 77_777_777) {
                    acc = v;
                    writeln!(text, "{{\"op\":\"new\",\"form\":\"new\",\"v\":{v:?},\"out\":{v:?}}}").unwrap();
                } else {
                    acc = out;
                    writeln!(text, "{{{l},\"out\":{out:?}}}").unwrap();
                }
            }
            None => rep.violation(format!("an operation on {acc:?} and {v:?} panics")),
        }
        e += 1;
    }
    rep.count("events", e);
}

// --- C30 ---
fn between<C: Comp + Into<f32>>(rep: &mut Report, cx: &Ctx) {
    let (onto, onorm, half) = (cx.bound("onto"), cx.bound("ontonorm"), cx.bound("half"));
    let pick = |j: u64| -> (Vector3d<C>, Vector3d<C>) {
        let mut g = gen(cx.seed ^ 30, j);
        let make = |c: [f64; 3]| if C::FLOAT { let c = c.map(|v| C::float(v as f32)); Vector3d { x: c[0], y: c[1], z: c[2] } } else {
            let c = c.map(|v| C::of((v as i64).clamp(C::LO, C::HI))); Vector3d { x: c[0], y: c[1], z: c[2] } };
        let dir = |g: &mut Rng| -> [f64; 3] {
            match g.below(5) {
                0 => {
                    let mut c = [0.0; 3];
                    c[g.below(3) as usize] = if g.below(2) == 0 { 1.0 } else { -1.0 };
                    c
                }
                // nearly along an axis
                4 => {
                    let mut c = [0; 3].map(|_| g.range(-1, 1) as f64 * 2f64.powi(-g.range(1, 130) as i32));
                    c[g.below(3) as usize] = if g.below(2) == 0 { 1.0 } else { -1.0 };
                    c
                }
                1 => [0; 3].map(|_| g.range(-3, 3) as f64),
                2 => {
                    let mut c = [0; 3].map(|_| g.unit() * 2.0 - 1.0);
                    c[g.below(3) as usize] = 0.0;
                    c
                }
                _ => [0; 3].map(|_| g.unit() * 2.0 - 1.0),
            }
        };
        let scale = |g: &mut Rng| if C::FLOAT { 2f64.powi(g.range(-12, 15) as i32) } else { C::HI as f64 / 2f64.powi(g.range(0, 7) as i32) };
        let (mut u, k, l) = (dir(&mut g), scale(&mut g), scale(&mut g));
        if g.below(3) == 0 {
            u = u.map(|c| c * (1.0 + g.unit()));
        }
        let v = match g.below(8) {
            0 => u,
            1 => u.map(|c| -c),
            // near the same or the opposite direction
            2 | 3 => {
                let s = if g.below(2) == 0 { 1.0 } else { -1.0 };
                let d = 2f64.powi(g.range(-12, 0) as i32);
                let p = dir(&mut g);
                [0, 1, 2].map(|i| s * u[i] + d * p[i])
            }
            // at a right angle
            4 => [-u[1], u[0], 0.0],
            _ => dir(&mut g),
        };
        let same = g.below(3) == 0;
        (make(u.map(|c| c * k)), make(v.map(|c| c * if same { k } else { l })))
    };
    let check = |(u, v): (Vector3d<C>, Vector3d<C>)| -> Option<String> {
        let (a, b) = (nums(u), nums(v));
        let (la, lb) = (len(&a), len(&b));
        if ![la, lb].iter().all(|l| (2f64.powi(-12)..=2f64.powi(17)).contains(l)) {
            return None;
        }
        let cr = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
        let (s, c) = (len(&cr) / (la * lb), dot(&a, &b) / (la * lb));
        let q = Quaternion::from_two_vectors(u, v).to_array();
        let f = wide(&q);
        let fail = |why: &str| Some(format!("from_two_vectors({u:?}, {v:?}) is {q:?}: {why}"));
        let l = len(&f);
        if !((l * l - 1.0).abs() <= onorm) {
            return fail("its norm is not 1 within 7 percent");
        }
        let axis = [f[1], f[2], f[3]];
        if c < 0.0 && s == 0.0 {
            if f[0].abs() > half || dot(&axis, &a).abs() > half * la {
                return fail("not a half turn around an axis perpendicular to the vectors");
            }
            return None;
        }
        // sin(1 degree)
        if c < 0.0 && s < 0.017452406 {
            return None;
        }
        if c > 0.0 && s == 0.0 && !(len(&axis) <= half && f[0] > 0.0) {
            return fail("not the identity up to scale");
        }
        // q a q* by the Hamilton product
        let x = vars(Some(a), 0.0, None, Some(q));
        let r: Vec<f64> = cx.polys.get("rotate").iter().map(|t| poly::real(t, &x).0).collect();
        let k = [r[1] * b[2] - r[2] * b[1], r[2] * b[0] - r[0] * b[2], r[0] * b[1] - r[1] * b[0]];
        if !(dot(&r, &b) > 0.0 && len(&k) <= onto.sin() * len(&r) * lb) {
            return fail("it does not take the first vector to the second");
        }
        if !(f[0] > 0.0) {
            return fail("w is not positive");
        }
        // the axis is perpendicular, if it is one
        if s > 0.01 && !(dot(&axis, &a).abs() <= onto * len(&axis) * la && dot(&axis, &b).abs() <= onto * len(&axis) * lb) {
            return fail("its axis is not perpendicular to the vectors");
        }
        None
    };
    let (tried, bad) = sweep::sweep(cx.tries(24, 29), |j| check(pick(j)).is_none(), |j, p| if p { format!("from_two_vectors of {:?} panics", pick(j)) } else { check(pick(j)).unwrap_or_default() });
    rep.count("pairs", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    // the rows: axes of the body to where the orientations take them
    for r in &cx.table[1..] {
        let m: Vec<Vec<i64>> = r.list("m").iter().map(|v| v.list().iter().map(|v| v.int()).collect()).collect();
        for j in 0..3 {
            let to = [m[0][j], m[1][j], m[2][j]];
            let c = |k: i64| if C::LO < 0 || k >= 0 { Some(C::of(k)) } else { None };
            let e = |i: usize| C::of((i == j) as i64);
            if let [Some(x), Some(y), Some(z)] = to.map(c) {
                if let Some(e) = check((Vector3d { x: e(0), y: e(1), z: e(2) }, Vector3d { x, y, z })) {
                    rep.violation(e);
                }
                rep.count("orientations", 1);
            }
        }
    }
}

// --- C31 ---
fn euler(rep: &mut Report, cx: &Ctx, rf: &Reference) {
    let (ptol, lock, tol) = (cx.bound("pitch"), cx.bound("lock"), cx.bound("euler"));
    let t = cx.polys.get("euler");
    let cl = rf.cos(lock);
    let pick = |j: u64| {
        let mut g = gen(cx.seed ^ 31, j);
        let q = match g.below(6) {
            // from the angles
            0..=2 => {
                let mut a = [0; 3].map(|_| (g.unit() - 0.5) * 4.0 * rf.half_pi);
                a[1] /= 2.0;
                match g.below(5) {
                    0 => a[1] = rf.half_pi * if g.below(2) == 0 { 1.0 } else { -1.0 },
                    1 => a[1] = (rf.half_pi - 2f64.powi(g.range(-24, -3) as i32)) * if g.below(2) == 0 { 1.0 } else { -1.0 },
                    2 => a = a.map(|v| (v / rf.half_pi * 2.0).round() * rf.half_pi / 2.0),
                    _ => {}
                }
                let h = a.map(|v| rf.cos_sin(v / 2.0));
                let ((cr, sr), (cp, sp), (cy, sy)) = (h[0], h[1], h[2]);
                let q = [cr * cp * cy + sr * sp * sy, sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy];
                let l = len(&q);
                q.map(|v| v / l)
            }
            // sparse
            3 => {
                let mut q = [0.0; 4];
                let (i, j, k) = (g.below(4) as usize, g.below(4) as usize, g.below(4) as usize);
                q[i] = g.unit() - 0.5;
                q[j] = g.unit() - 0.5;
                q[k] = 0.1 + g.unit();
                let l = len(&q);
                q.map(|v| v / l)
            }
            _ => unit64(&mut g),
        };
        q.map(|v| v as f32)
    };
    let check = |q: Q4| -> Option<String> {
        let (r, p, y) = of(q).to_euler();
        let (r, p, y) = (r as f64, p as f64, y as f64);
        let x = vars(None, 0.0, None, Some(q));
        let e: Vec<f64> = t.iter().map(|t| poly::real(t, &x).0).collect();
        let fail = |what: &str| Some(format!("{what} of {q:?}: to_euler() is {:?}", (r, p, y)));
        if r.is_nan() || p.is_nan() || y.is_nan() || r.abs() > 3.15 || y.abs() > 3.15 {
            return fail("not angles");
        }
        let s = e[2].clamp(-1.0, 1.0);
        let at = |a: f64| rf.cos_sin(a.clamp(-rf.half_pi, rf.half_pi)).1;
        if !(p.abs() <= rf.half_pi + ptol && at(p - ptol) <= s + 1e-6 && s - 1e-6 <= at(p + ptol)) {
            return fail("pitch");
        }
        if s.abs() < cl {
            for (what, a, s, c) in [("roll", r, e[0], e[1]), ("yaw", y, e[3], e[4])] {
                let (ca, sa) = rf.cos_sin(a);
                let l = (s * s + c * c).sqrt();
                if !((sa * c - ca * s).abs() <= tol * l + 1e-6 && ca * c + sa * s > 0.0) {
                    return fail(what);
                }
            }
        }
        None
    };
    let (tried, bad) = sweep::sweep(cx.tries(27, 33), |j| check(pick(j)).is_none(), |j, p| if p { format!("to_euler of {:?} panics", pick(j)) } else { check(pick(j)).unwrap_or_default() });
    rep.count("quaternions", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    for row in &cx.table[1..] {
        let (q, norm) = (row.ints("q"), row.int("norm") as f64);
        let u = [0, 1, 2, 3].map(|i| (q[i] as f64 / norm.sqrt()) as f32);
        rep.count("orientations", 1);
        if let Some(e) = check(u) {
            rep.violation(e);
        }
        let (r, p, y) = of(u).to_euler();
        let quarter = |a: f32, k: i64| {
            let d = (a as f64 - k as f64 * rf.half_pi).rem_euclid(4.0 * rf.half_pi);
            d.min(4.0 * rf.half_pi - d) <= tol
        };
        let e = row.ints("euler");
        if !((p as f64 - row.int("pitch") as f64 * rf.half_pi).abs() <= ptol && (e.is_empty() || (quarter(r, e[0]) && quarter(y, e[2])))) {
            rep.violation(format!("to_euler() of {u:?} is {:?}, not {e:?} quarter turns, and a pitch of {}", (r, p, y), row.int("pitch")));
        }
    }
}

fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let cx = Ctx { polys: Polys::new(&rows::load(&args.req("poly"))), table: rows::load(&args.req("rows")), seed: args.seed(), thorough: args.thorough() };
    rep.count("rows", cx.table.len() as u64);
    let elem = || Reference::load(&args.req("elem"));
    let mut text = String::new();
    macro_rules! each {
        ($f:ident, $($a:expr),*) => {
            $f::<i8>($($a),*);
            $f::<i16>($($a),*);
            $f::<u8>($($a),*);
            $f::<u16>($($a),*);
            $f::<f32>($($a),*);
            $f::<F32>($($a),*);
        };
    }
    match args.req("mode").as_str() {
        "algebra" => {
            algebra(&mut rep, &cx);
            history(&mut rep, &cx, &mut text, false);
        }
        "lengths" => lengths(&mut rep, &cx),
        "rotation" => {
            let rf = elem();
            each!(rotation, &mut rep, &cx, &rf);
            orientations(&mut rep, &cx);
            turns(&cx, &mut text, &rf);
            history(&mut rep, &cx, &mut text, true);
        }
        "between" => {
            each!(between, &mut rep, &cx);
        }
        "euler" => euler(&mut rep, &cx, &elem()),
        m => harness::die(&format!("mode {m}")),
    }
    if let Some(p) = args.opt("trace") {
        std::fs::write(p, text).unwrap_or_else(|e| harness::die(&e.to_string()));
    }
    for j in 0..4 {
        rep.sample(format!("{:?}", quat(&mut gen(cx.seed, j))));
    }
    rep.finish()
}
