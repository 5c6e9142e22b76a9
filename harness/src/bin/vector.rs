//! C21-C24: vectors, by the polynomials of spec/Poly.tla, and histories for VectorsTrace, VecIterTrace, LengthsTrace.
use harness::iters::Table;
use harness::{out::Report, poly, poly::Polys, rows, sweep, vecs::*, Args, Rng};
use micromath::vector::{F32x2, F32x3, Vector, Vector2d, Vector3d};
use micromath::F32;
use std::fmt::Write;

struct Ctx {
    polys: Polys,
    seed: u64,
    thorough: bool,
    methods: Option<Table>,
}
fn gen(seed: u64, j: u64) -> Rng {
    let mut g = Rng(j.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (seed.wrapping_mul(0xD134_2543_DE82_EF95) << 1) | 1);
    g.next();
    g.next();
    g
}
fn vec<C: Comp, V: Vx<C>>(g: &mut Rng) -> V {
    let kind = g.below(6);
    let mix = g.below(4) == 0;
    let c: Vec<C> = (0..3).map(|_| { let k = if mix { g.below(6) } else { kind }; comp(g, k) }).collect();
    V::make(&c)
}
fn eq3<C: Comp>(a: [C; 3], b: [C; 3]) -> bool {
    (0..3).all(|i| a[i].same(b[i]))
}

// --- C21 ---
fn arith<C: Comp, V: Vx<C>>(rep: &mut Report, cx: &Ctx) {
    let n = if cx.thorough { 1u64 << 28 } else { 1 << 22 };
    let dim = V::DIM;
    let names = [format!("add{dim}"), format!("sub{dim}"), format!("mul{dim}")];
    let pick = |j: u64| {
        let mut g = gen(cx.seed, j);
        let (a, b): (V, V) = (vec(&mut g), vec(&mut g));
        let kind = g.below(6);
        (a, b, comp::<C>(&mut g, kind))
    };
    // the result that the specification asks for, or None
    let want = |op: usize, a: V, b: V, k: C| -> Option<[C; 3]> {
        let (x, y) = (a.fields(), b.fields());
        let mut r = [C::default(); 3];
        for i in 0..dim {
            r[i] = if C::FLOAT {
                // one operation, rounded once
                let (x, y, k) = (x[i].num(), y[i].num(), k.num());
                C::float([x + y, x - y, x * k, x / k][op])
            } else if op == 3 {
                let k = k.int();
                if k == 0 {
                    return None;
                }
                let q = x[i].int() / k;
                if q < C::LO || q > C::HI {
                    return None;
                }
                C::of(q)
            } else {
                let mut v = [0i128; 22];
                for j in 0..dim {
                    v[poly::A + j] = x[j].int() as i128;
                    v[poly::B + j] = y[j].int() as i128;
                }
                v[poly::K] = k.int() as i128;
                let q = poly::exact(&cx.polys.get(&names[op])[i], &v).0;
                if q < C::LO as i128 || q > C::HI as i128 {
                    return None;
                }
                C::of(q as i64)
            };
        }
        Some(r)
    };
    let forms = |op: usize, a: V, b: V, k: C| -> Vec<(&str, V)> {
        let mut t = a;
        match op {
            0 => {
                t += b;
                vec![("a + b", a + b), ("a += b", t)]
            }
            1 => {
                t -= b;
                vec![("a - b", a - b), ("a -= b", t)]
            }
            2 => {
                t *= k;
                vec![("a * k", a * k), ("k * a", V::scaled(k, a)), ("a *= k", t)]
            }
            _ => {
                t /= k;
                vec![("a / k", a / k), ("a /= k", t)]
            }
        }
    };
    let (tried, bad) = sweep::sweep(
        n,
        |j| {
            let (a, b, k) = pick(j);
            (0..4).all(|op| want(op, a, b, k).is_none_or(|w| forms(op, a, b, k).iter().all(|(_, f)| eq3(f.fields(), w))))
        },
        |j, p| {
            let (a, b, k) = pick(j);
            let bad = (0..4).find(|op| want(*op, a, b, k).is_some_and(|w| sweep::guard(|| forms(*op, a, b, k).iter().all(|(_, f)| eq3(f.fields(), w))) != Some(true))).unwrap_or(0);
            let f = sweep::guard(|| forms(bad, a, b, k));
            format!("of {a:?}, {b:?}, {k:?}: {:?} is {f:?}{}", want(bad, a, b, k).map(|w| w[..dim].to_vec()), if p { " (panics)" } else { "" })
        },
    );
    rep.count("vectors", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    // sums
    let rounds = if cx.thorough { 1 << 20 } else { 1 << 15 };
    let list = |j: u64| -> (Vec<V>, Option<Vec<i64>>) {
        let mut g = gen(cx.seed ^ 9, j);
        let len = if j < 30 { j / 3 } else { g.below(if j % 50 == 0 { 300 } else { 9 }) };
        let lim = (C::HI / (len as i64 + 1)).max(1);
        let vs: Vec<V> = (0..len)
            .map(|_| {
                let c: Vec<C> = (0..3)
                    .map(|_| {
                        let n = match g.below(3) {
                            0 => g.range(-3, 3),
                            _ => g.range(-lim, lim),
                        };
                        C::of(if n < C::LO { -n } else { n }.clamp(C::LO, C::HI))
                    })
                    .collect();
                V::make(&c)
            })
            .collect();
        let tot: Vec<i64> = (0..dim).map(|i| vs.iter().map(|v| v.fields()[i].int()).sum()).collect();
        let mag = (0..dim).map(|i| vs.iter().map(|v| v.fields()[i].int().abs()).sum::<i64>()).max().unwrap();
        (vs, (mag <= C::HI).then_some(tot))
    };
    let (tried, bad) = sweep::sweep(
        rounds,
        |j| {
            let (vs, want) = list(j);
            let Some(want) = want else { return true };
            let (mut n, mut m) = (0, 0);
            let s: V = vs.iter().copied().inspect(|_| n += 1).sum();
            let t: V = vs.iter().inspect(|_| m += 1).sum();
            n == vs.len() && m == vs.len() && [s, t].iter().all(|r| r.comps().iter().map(|c| c.int()).collect::<Vec<_>>() == want)
        },
        |j, p| {
            let (vs, want) = list(j);
            if p {
                return format!("sum() of {vs:?} panics, though {want:?} fits");
            }
            let (s, t): (V, V) = (vs.iter().copied().sum(), vs.iter().sum());
            format!("sum() of {vs:?} is {s:?} (owned), {t:?} (borrowed), not {want:?}")
        },
    );
    rep.count("sums", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    if sweep::guard(|| V::default().comps().iter().all(|c| c.num() == 0.0)) != Some(true) {
        rep.violation(format!("the default {dim}D vector of {} is not zero", C::NAME));
    }
}

// --- C22 ---
fn products<C: Comp, V: Vx<C>>(rep: &mut Report, cx: &Ctx, perp: fn(V, V) -> Option<C>) {
    let dim = V::DIM;
    let n = if cx.thorough { 1u64 << 28 } else { 1 << 22 };
    let pick = |j: u64| {
        let mut g = gen(cx.seed ^ 22, j);
        let (a, b): (V, V) = (vec(&mut g), vec(&mut g));
        (a, b)
    };
    let dotp = &cx.polys.get(&format!("dot{dim}"))[0];
    let magp = &cx.polys.get(&format!("magsq{dim}"))[0];
    let perpp = &cx.polys.get("perp")[0];
    let crossp = cx.polys.get(&format!("cross{dim}"));
    // does the result fit, where the type can hold the terms and sums?
    let fits = |t: &[poly::Term], a: V, b: V, f: &dyn Fn() -> C| -> bool {
        let (x, y) = (a.fields(), b.fields());
        if C::FLOAT {
            if x.iter().chain(&y).any(|c| !c.num().is_finite()) {
                f();
                return true;
            }
            let mut v = [0f64; 22];
            for i in 0..3 {
                v[poly::A + i] = x[i].num() as f64;
                v[poly::B + i] = y[i].num() as f64;
            }
            poly::near(t, &v, f().num())
        } else {
            let mut v = [0i128; 22];
            for i in 0..3 {
                v[poly::A + i] = x[i].int() as i128;
                v[poly::B + i] = y[i].int() as i128;
            }
            let (e, pos, neg, most) = poly::exact(t, &v);
            let room = |x: i128| x >= C::LO as i128 && x <= C::HI as i128;
            if !room(e) || !room(pos) || -neg > C::HI as i128 || most > C::HI as i128 || (C::LO < 0 && !room(neg)) {
                return true;
            }
            f().int() as i128 == e
        }
    };
    let check = |a: V, b: V| -> Option<String> {
        let bad = |name: &str| Some(format!("{name} of {a:?} and {b:?}"));
        if !fits(dotp, a, b, &|| a.dot_fn(b)) {
            return bad("dot() (inherent)");
        }
        if !fits(dotp, a, b, &|| Vector::dot(a, b)) {
            return bad("dot() (Vector)");
        }
        if !fits(magp, a, a, &|| a.magnitude_sq()) {
            return bad("magnitude_sq() of the first");
        }
        if dim == 2 && !fits(perpp, a, b, &|| perp(a, b).unwrap()) {
            return bad("perpendicular_dot()");
        }
        // a component is only asked for if all of them fit
        let all = C::FLOAT || crossp.iter().all(|t| {
            let mut v = [0i128; 22];
            for i in 0..3 {
                v[poly::A + i] = a.fields()[i].int() as i128;
                v[poly::B + i] = b.fields()[i].int() as i128;
            }
            let (e, pos, neg, most) = poly::exact(t, &v);
            e >= C::LO as i128 && pos <= C::HI as i128 && -neg <= C::HI as i128 && most <= C::HI as i128
        });
        if all {
            for i in 0..3 {
                if !fits(&crossp[i], a, b, &|| a.cross_fn(b).fields()[i]) {
                    return bad("cross()");
                }
                if !fits(&crossp[i], a, b, &|| a.cross_op(b).fields()[i]) {
                    return bad("the product *");
                }
            }
        }
        None
    };
    let (tried, bad) = sweep::sweep(
        n,
        |j| {
            let (a, b) = pick(j);
            check(a, b).is_none()
        },
        |j, p| {
            let (a, b) = pick(j);
            let what = sweep::guard(|| check(a, b)).flatten().unwrap_or(format!("a product of {a:?} and {b:?}"));
            format!(
                "{what}: {} (dot {:?} {:?}, magnitude_sq {:?}, cross {:?} {:?}, perpendicular_dot {:?})",
                if p { "panics" } else { "wrong" },
                sweep::guard(|| a.dot_fn(b)),
                sweep::guard(|| Vector::dot(a, b)),
                sweep::guard(|| a.magnitude_sq()),
                sweep::guard(|| a.cross_fn(b)),
                sweep::guard(|| a.cross_op(b)),
                sweep::guard(|| perp(a, b))
            )
        },
    );
    rep.count("pairs", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
}

// --- C21, C22: histories ---
fn history<C: Comp, V: Vx<C>>(rep: &mut Report, cx: &Ctx, text: &mut String, products: bool, events: u64, lift: fn(V) -> Option<Vector3d<C>>, perp: fn(V, V) -> Option<C>) {
    let mut g = Rng::new(cx.seed, 2100 + C::NAME.len() as u64 * 10 + V::DIM as u64);
    let (lo, hi) = (C::LO.max(-(1 << 23)), C::HI.min(1 << 23));
    let dim = V::DIM;
    let show = |v: &[C]| format!("{:?}", v.iter().map(|c| c.int()).collect::<Vec<_>>());
    let mut acc: V = V::default();
    let mut done = 0;
    let mut fresh = true;
    while done < events {
        let small = |g: &mut Rng| -> V {
            let c: Vec<C> = (0..3)
                .map(|_| {
                    let b = g.below(9);
                    let n = g.range(-(1 << b), 1 << b);
                    C::of(if n < lo { -n } else { n }.clamp(lo, hi))
                })
                .collect();
            V::make(&c)
        };
        let a: Vec<i64> = acc.comps().iter().map(|c| c.int()).collect();
        let inr = |r: &[i64]| r.iter().all(|x| *x >= lo && *x <= hi);
        let op = if fresh { "new" } else if products { g.pick(&["new", "dot", "magnitude_sq", "perp", "cross", "lift", "add"]) } else { g.pick(&["new", "default", "add", "add", "sub", "sub", "mul", "div", "sum", "sum", "lift"]) };
        let ty = C::NAME;
        let v: V = small(&mut g);
        let b: Vec<i64> = v.comps().iter().map(|c| c.int()).collect();
        let got: Option<(Vec<C>, String)>;
        match op {
            "new" => got = Some((v.comps(), String::new())),
            "default" => got = sweep::guard(|| (V::default().comps(), String::new())),
            "add" | "sub" => {
                let s = if op == "add" { 1 } else { -1 };
                if !inr(&(0..dim).map(|i| a[i] + s * b[i]).collect::<Vec<_>>()) {
                    continue;
                }
                let assign = g.below(2) == 0;
                let form = match (op, assign) {
                    ("add", false) => "+",
                    ("add", true) => "+=",
                    (_, false) => "-",
                    _ => "-=",
                };
                got = sweep::guard(|| {
                    let mut t = acc;
                    match form {
                        "+" => t = acc + v,
                        "+=" => t += v,
                        "-" => t = acc - v,
                        _ => t -= v,
                    }
                    (t.comps(), format!("\"form\":\"{form}\",\"v\":{},", show(&v.comps())))
                });
            }
            "mul" | "div" => {
                let k = if op == "div" && g.below(3) == 0 { v.fields()[1] } else { C::of(g.range(if lo < 0 { -5 } else { 0 }, 5)) };
                let kn = k.int();
                if op == "mul" && !inr(&a.iter().map(|x| x * kn).collect::<Vec<_>>()) || op == "div" && kn == 0 {
                    continue;
                }
                if op == "div" && (!inr(&a.iter().map(|x| x / kn).collect::<Vec<_>>()) || C::FLOAT && a.iter().any(|x| x % kn != 0)) {
                    continue;
                }
                let form = if op == "mul" { g.pick(&["v*k", "k*v", "*="]) } else { g.pick(&["/", "/="]) };
                got = sweep::guard(|| {
                    let mut t = acc;
                    match form {
                        "v*k" => t = acc * k,
                        "k*v" => t = V::scaled(k, acc),
                        "*=" => t *= k,
                        "/" => t = acc / k,
                        _ => t /= k,
                    }
                    (t.comps(), format!("\"form\":\"{form}\",\"k\":{kn},"))
                });
            }
            "sum" => {
                let vs: Vec<V> = (0..g.below(5)).map(|_| small(&mut g)).collect();
                let mag: Vec<i64> = (0..dim).map(|i| a[i].abs() + vs.iter().map(|v| v.fields()[i].int().abs()).sum::<i64>()).collect();
                if !inr(&mag) {
                    continue;
                }
                let owned = g.below(2) == 0;
                got = sweep::guard(|| {
                    let all: Vec<V> = std::iter::once(acc).chain(vs.iter().copied()).collect();
                    let s: V = if owned { all.iter().copied().sum() } else { all.iter().sum() };
                    let list: Vec<String> = vs.iter().map(|v| show(&v.comps())).collect();
                    (s.comps(), format!("\"form\":\"{}\",\"vs\":[{}],", if owned { "owned" } else { "borrowed" }, list.join(",")))
                });
            }
            "dot" | "magnitude_sq" | "perp" => {
                if op == "perp" && dim == 3 {
                    continue;
                }
                let o = if op == "magnitude_sq" { &a } else { &b };
                let p: Vec<i64> = if op == "perp" { vec![a[0] * b[1], -a[1] * b[0]] } else { (0..dim).map(|i| a[i] * o[i]).collect() };
                let total: i64 = p.iter().sum();
                if p.iter().map(|x| x.abs()).sum::<i64>() > hi || !inr(&[total]) {
                    continue;
                }
                let form = g.pick(&["inherent", "trait"]);
                got = sweep::guard(|| {
                    let r = match op {
                        "dot" if form == "trait" => Vector::dot(acc, v),
                        "dot" => acc.dot_fn(v),
                        "perp" => perp(acc, v).unwrap(),
                        _ => acc.magnitude_sq(),
                    };
                    (acc.comps(), format!("\"form\":\"{form}\",\"v\":{},\"res\":{},", show(&v.comps()), r.int()))
                });
            }
            _ => {
                // cross, lift: the result is a vector in three dimensions, and the history goes on with a new one
                let form = g.pick(&["cross", "*"]);
                let (x, y) = (acc.fields(), v.fields());
                let (x, y): (Vec<i64>, Vec<i64>) = (x.iter().map(|c| c.int()).collect(), y.iter().map(|c| c.int()).collect());
                let c = [(x[1] * y[2], x[2] * y[1]), (x[2] * y[0], x[0] * y[2]), (x[0] * y[1], x[1] * y[0])];
                if op == "cross" && c.iter().any(|(p, q)| p.abs() > hi || q.abs() > hi || !inr(&[p - q])) || op == "lift" && dim == 3 {
                    continue;
                }
                got = sweep::guard(|| {
                    let r = if op == "lift" {
                        lift(acc).unwrap()
                    } else if form == "cross" {
                        acc.cross_fn(v)
                    } else {
                        acc.cross_op(v)
                    };
                    (r.fields().to_vec(), if op == "lift" { String::new() } else { format!("\"form\":\"{form}\",\"v\":{},", show(&v.comps())) })
                });
            }
        }
        let Some((out, fields)) = got else {
            rep.violation(format!("{op} of {acc:?} with {v:?} or other small components panics"));
            done += 1;
            continue;
        };
        writeln!(text, "{{\"ty\":\"{ty}\",\"op\":\"{op}\",{fields}\"out\":{}}}", show(&out)).unwrap();
        fresh = op == "cross" || op == "lift";
        if !fresh {
            acc = V::make(&[out[0], out[1], *out.get(2).unwrap_or(&C::default())]);
        }
        done += 1;
        rep.count("events", 1);
    }
}

// --- C23 ---
fn access<C: Comp, V: Vx<C>>(rep: &mut Report, cx: &Ctx, text: &mut String, hist: &mut String, f32s: fn(V) -> Option<Vec<f32>>, lift: fn(V) -> Option<Vector3d<C>>) {
    let dim = V::DIM;
    let n = if cx.thorough { 1u64 << 26 } else { 1 << 19 };
    let same = |a: &[C], b: &[C]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(*y));
    let check = |j: u64| -> Option<String> {
        let mut g = gen(cx.seed ^ 23, j);
        let v: V = vec(&mut g);
        let c = v.comps();
        let bad = |what: &str| Some(format!("{what} of {v:?}"));
        let (t, a) = v.out_of();
        if !same(&t, &c) {
            return bad("conversion into a tuple");
        }
        if !same(&a, &c) {
            return bad("conversion into an array");
        }
        if !same(&v.array_fn(), &c) {
            return bad("to_array()");
        }
        if !same(&v.via_tuple().comps(), &c) {
            return bad("conversion from a tuple");
        }
        if !same(&v.via_array().comps(), &c) {
            return bad("conversion from an array");
        }
        if !same(&v.iter().collect::<Vec<C>>(), &c) {
            return bad("iter()");
        }
        if let (Some(t), true) = (&cx.methods, j % 256 == 0) {
            if let Some(e) = t.agree(|| v.iter(), |a, b| a.same(b), &c) {
                return bad(&format!("iter(): {e}"));
            }
        }
        let mut w = v;
        let mut seen = vec![];
        let m = w.map(|x| {
            seen.push(x);
            x
        });
        if !same(&m.comps(), &c) || !same(&seen, &c) || !same(&w.comps(), &c) {
            return bad("map()");
        }
        let r = w.map(|_| c[1]);
        if !same(&r.comps(), &vec![c[1]; dim]) {
            return bad("map() with a constant function");
        }
        if !same(&V::from_slice(&c).comps(), &c) {
            return bad("from_slice()");
        }
        if !same(&V::from_iter(c.iter().copied()).comps(), &c) || !same(&c.iter().copied().collect::<V>().comps(), &c) {
            return bad("from_iter()");
        }
        for i in 0..dim {
            if !v.get(i).is_some_and(|x| x.same(c[i])) || !v[i].same(c[i]) {
                return bad("get() or index");
            }
        }
        if v.get(dim).is_some() || v.get(dim + (j as usize % 7)).is_some() {
            return bad("get() beyond the axes");
        }
        if let Some(f) = f32s(v) {
            if f.len() != dim || !(0..dim).all(|i| harness::same_bits(f[i], c[i].num())) {
                return bad("conversion to f32 components");
            }
        }
        if let Some(l) = lift(v) {
            if !(l.x.same(c[0]) && l.y.same(c[1]) && l.z.num() == 0.0) {
                return bad("conversion to 3D");
            }
        }
        if v.iter().any(|x| x.num().is_nan()) {
            return None;
        }
        if v != v.via_array() || V::AXES != dim {
            return bad("==, or AXES");
        }
        // equality looks at each component
        for i in 0..dim {
            let mut d = c.clone();
            d[i] = if d[i].num() == 1.0 { C::of(0) } else { C::of(1) };
            if V::make(&[d[0], d[1], *d.get(2).unwrap_or(&d[0])]) == v {
                return bad("== ignores a component");
            }
        }
        None
    };
    let (tried, bad) = sweep::sweep(
        n,
        |j| check(j).is_none(),
        |j, p| if p { format!("access to a {dim}D vector of {} panics ({:?})", C::NAME, sweep::guard(|| { let mut g = gen(cx.seed ^ 23, j); vec::<C, V>(&mut g) })) } else { check(j).unwrap_or_default() },
    );
    rep.count("vectors", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    for i in (dim..dim + 40).chain([usize::MAX, usize::MAX - 1, 1 << 32, (1 << 32) + 1, 1 << 33, (1 << 8) + 1, 1 << 16]) {
        let v = V::make(&[C::of(1), C::of(2), C::of(3)]);
        if sweep::guard(|| v[i]).is_some() || !matches!(sweep::guard(|| v.get(i)), Some(None)) {
            rep.violation(format!("index {i} of {v:?} does not panic, or get({i}) is not None"));
        }
        rep.count("indices", 1);
    }
    // history of iterators
    let mut g = Rng::new(cx.seed, 2300 + C::NAME.len() as u64 * 10 + dim as u64);
    let lo = C::LO.max(-60_000);
    let hi = C::HI.min(60_000);
    let int = |c: Option<C>| c.map_or(99999, |c| c.int());
    let events = if cx.thorough { 2000 } else { 220 };
    let mut e = 0;
    while e < events {
        let vs: Vec<V> = (0..2)
            .map(|_| {
                let c: Vec<C> = (0..3).map(|_| C::of(g.range(lo, hi))).collect();
                V::make(&c)
            })
            .collect();
        let ints = |v: &V| format!("{:?}", v.comps().iter().map(|c| c.int()).collect::<Vec<_>>());
        writeln!(hist, "{{\"op\":\"reset\"}}").unwrap();
        let mut its = vec![];
        for _ in 0..24 {
            e += 1;
            let which = g.below(14);
            let id = if its.is_empty() { 0 } else { g.below(its.len() as u64) as usize };
            let line = sweep::guard(|| match which {
                0 | 1 if its.len() < 5 => {
                    let v = &vs[g.below(2) as usize];
                    its.push(v.iter());
                    format!("\"op\":\"iter\",\"id\":{},\"vec\":{}", its.len(), ints(v))
                }
                2 if !its.is_empty() && its.len() < 5 => {
                    let c = its[id].clone();
                    its.push(c);
                    format!("\"op\":\"clone\",\"id\":{},\"of\":{}", its.len(), id + 1)
                }
                3..=7 if !its.is_empty() => format!("\"op\":\"next\",\"id\":{},\"res\":{}", id + 1, int(its[id].next())),
                8 if !its.is_empty() => {
                    let k = g.below(3);
                    format!("\"op\":\"nth\",\"id\":{},\"k\":{k},\"res\":{}", id + 1, int(its[id].nth(k as usize)))
                }
                9 if !its.is_empty() => format!("\"op\":\"count\",\"id\":{},\"res\":{}", id + 1, its[id].clone().count()),
                10 if !its.is_empty() => format!("\"op\":\"last\",\"id\":{},\"res\":{}", id + 1, int(its[id].clone().last())),
                11 if !its.is_empty() => format!("\"op\":\"collect\",\"id\":{},\"items\":{:?}", id + 1, its[id].clone().map(|c| c.int()).collect::<Vec<_>>()),
                12 if !its.is_empty() => {
                    let (l, h) = its[id].size_hint();
                    format!("\"op\":\"size_hint\",\"id\":{},\"lo\":{},\"hi\":{}", id + 1, l.min(9999), h.unwrap_or(9999).min(9999))
                }
                _ => {
                    let (v, k) = (&vs[0], g.below(6));
                    if which % 2 == 0 {
                        format!("\"op\":\"get\",\"vec\":{},\"k\":{k},\"res\":{}", ints(v), int(v.get(k as usize)))
                    } else {
                        format!("\"op\":\"index\",\"vec\":{},\"k\":{k},\"res\":{}", ints(v), sweep::guard(|| v[k as usize]).map_or(88888, |c| c.int()))
                    }
                }
            });
            match line {
                Some(l) => writeln!(hist, "{{{l}}}").unwrap(),
                None => rep.violation(format!("an iterator over one of {vs:?} panics")),
            }
        }
        for form in ["slice", "iter", "filter", "from_fn", "chain", "skip", "resumed", "owned"] {
            let len = g.below(6) as usize;
            let items: Vec<C> = (0..len).map(|_| C::of(g.range(lo, hi))).collect();
            let got = sweep::guard(|| match form {
                "slice" => V::from_slice(&items),
                "iter" => V::from_iter(items.iter().copied()),
                // iterators that do not know how many items are left
                "filter" => V::from_iter(items.iter().flat_map(|c| [(*c, false), (*c, true)]).filter(|c| c.1).map(|c| c.0)),
                "from_fn" => {
                    let mut i = 0;
                    V::from_iter(std::iter::from_fn(|| {
                        i += 1;
                        items.get(i - 1).copied()
                    }))
                }
                "chain" => V::from_iter(items[..len / 2].iter().chain(&items[len / 2..]).copied()),
                "skip" => V::from_iter([C::of(1), C::of(1)].into_iter().chain(items.iter().copied()).skip(2)),
                // iterators that go on after None
                "resumed" => {
                    let mut i = 0;
                    V::from_iter(std::iter::from_fn(|| {
                        i += 1;
                        if i == len + 1 { None } else { Some(items.get(i - 1).copied().unwrap_or(C::of(1))) }
                    }))
                }
                _ => V::from_iter(items.clone()),
            });
            let out = got.map_or(vec![88888], |v| v.comps().iter().map(|c| c.int()).collect());
            writeln!(hist, "{{\"op\":\"build\",\"form\":\"{form}\",\"axes\":{dim},\"items\":{:?},\"out\":{out:?}}}", items.iter().map(|c| c.int()).collect::<Vec<_>>()).unwrap();
            e += 1;
        }
    }
    rep.count("iterator_events", e);
    // many items, and items without end
    for len in [dim + 256, 256 * dim, dim + 65_536, 65_536 * dim, dim + (1 << 24)] {
        let items = vec![C::of(1); len];
        if sweep::guard(|| V::from_slice(&items)).is_some() || sweep::guard(|| V::from_iter(items.iter().copied())).is_some() {
            rep.violation(format!("{len} items make a {dim}D vector of {}", C::NAME));
        }
    }
    let given = std::cell::Cell::new(0u32);
    let endless = || {
        given.set(0);
        std::iter::repeat_with(|| {
            given.set(given.get() + 1);
            // stops a loop that would not end
            if given.get() > 1 << 20 { std::panic::panic_any(0u8) } else { C::of(1) }
        })
    };
    let made = [sweep::guard(|| V::from_iter(endless())).is_some(), sweep::guard(|| endless().collect::<V>()).is_some()];
    if made != [false, false] || given.get() > 1 << 20 {
        rep.violation(format!("from_iter() of an endless iterator does not panic, for {dim}D vectors of {}", C::NAME));
    }
    // history of conversions there and back
    let acc: V = V::make(&[C::of(1), C::of(2), C::of(3)]);
    let show = |v: &[C]| format!("{:?}", v.iter().map(|c| c.int()).collect::<Vec<_>>());
    writeln!(text, "{{\"ty\":\"{}\",\"op\":\"new\",\"out\":{}}}", C::NAME, show(&acc.comps())).unwrap();
    for i in 0..(if cx.thorough { 1000 } else { 100 }) {
        let v: V = V::make(&(0..3).map(|_| C::of(g.range(lo, hi))).collect::<Vec<C>>());
        if i % 3 == 0 {
            writeln!(text, "{{\"ty\":\"{}\",\"op\":\"new\",\"out\":{}}}", C::NAME, show(&v.comps())).unwrap();
            for op in ["array", "tuple", "iter", "slice", "get", "map", "to_array", "copy"] {
                let out = sweep::guard(|| match op {
                    "array" => v.via_array().comps(),
                    "tuple" => v.via_tuple().comps(),
                    "iter" => V::from_iter(v.iter()).comps(),
                    "slice" => V::from_slice(&v.array_fn()).comps(),
                    "get" => (0..dim).map(|i| v.get(i).unwrap()).collect(),
                    "map" => {
                        let mut t = v;
                        t.map(|c| c).comps()
                    }
                    "to_array" => v.array_fn(),
                    _ => {
                        let t = v;
                        t.comps()
                    }
                });
                match out {
                    Some(o) => writeln!(text, "{{\"ty\":\"{}\",\"op\":\"{op}\",\"out\":{}}}", C::NAME, show(&o)).unwrap(),
                    None => rep.violation(format!("{op} of {v:?} panics")),
                }
            }
            if let Some(f) = sweep::guard(|| f32s(v)).flatten() {
                writeln!(text, "{{\"ty\":\"f32\",\"op\":\"f32\",\"out\":{:?}}}", f.iter().map(|c| exact_int(*c)).collect::<Vec<_>>()).unwrap();
            }
        }
    }
}

// --- C24 ---
struct Bounds {
    low: f64,
    high: f64,
    ulow: f64,
    uhigh: f64,
}
fn lengths<C: Comp + Into<f32>, V: Vx<C>>(rep: &mut Report, cx: &Ctx, text: &mut String, bd: &Bounds, norm: fn(V) -> Option<V>) {
    let dim = V::DIM;
    let n = if cx.thorough { 1u64 << 29 } else { 1 << 23 };
    let pick = |j: u64| -> (V, V) {
        let mut g = gen(cx.seed ^ 24, j);
        if !C::FLOAT {
            return (vec(&mut g), vec(&mut g));
        }
        let e = g.range(-60, 59) as i32;
        let one = |g: &mut Rng| -> V {
            let c: Vec<C> = (0..3)
                .map(|_| {
                    let de = if g.below(3) == 0 { g.range(-30, 0) as i32 } else { 0 };
                    let s = if g.below(2) == 0 { 1.0 } else { -1.0 };
                    let m = match g.below(5) {
                        0 => 0.0,
                        1 => 1.0,
                        _ => 1.0 + g.unit(),
                    };
                    C::float((s * m * 2f64.powi(e + de)) as f32)
                })
                .collect();
            V::make(&c)
        };
        let a = one(&mut g);
        let b = match g.below(3) {
            0 => a + a * C::float(g.pick(&[0.0, 1e-3, -2.0, 0.5, -1e-6])),
            _ => one(&mut g),
        };
        (a, b)
    };
    let inrange = |c: &[f64]| {
        let m = c.iter().fold(0f64, |m, x| m.max(x.abs()));
        (2f64.powi(-60)..=2f64.powi(60)).contains(&m)
    };
    let within = |want: f64, got: f32, slack: f64| got as f64 >= want * bd.low - slack && got as f64 <= want * bd.high + slack;
    let check = |a: V, b: V| -> Option<String> {
        let (x, y) = (a.comps(), b.comps());
        let xf: Vec<f64> = x.iter().map(|c| c.num() as f64).collect();
        let len = |c: &[f64]| c.iter().map(|v| v * v).sum::<f64>().sqrt();
        if inrange(&xf) {
            let l = len(&xf);
            let m = a.magnitude();
            if !within(l, m, 0.0) {
                return Some(format!("magnitude() of {a:?} is {m:?}, not {l:?} within the bounds"));
            }
            if let Some(u) = norm(a) {
                let u: Vec<f64> = u.comps().iter().map(|c| c.num() as f64).collect();
                // each component divided by the magnitude
                if !(0..dim).all(|i| (u[i] - xf[i] / m as f64).abs() <= 2f64.powi(-22) * (xf[i] / m as f64).abs() + 1e-44) || !(bd.ulow..=bd.uhigh).contains(&len(&u)) {
                    return Some(format!("normalized() of {a:?} is {u:?}"));
                }
            }
        }
        let d: Vec<f64> = (0..dim).map(|i| (x[i].num() - y[i].num()) as f64).collect();
        if inrange(&d) {
            let l = len(&d);
            let (m, k) = (a.distance(b), b.distance(a));
            if !within(l, m, 0.0) || m.to_bits() != k.to_bits() {
                return Some(format!("distance() between {a:?} and {b:?} is {m:?} and {k:?}, not {l:?} within the bounds"));
            }
        }
        None
    };
    let (tried, bad) = sweep::sweep(
        n,
        |j| {
            let (a, b) = pick(j);
            check(a, b).is_none()
        },
        |j, p| {
            let (a, b) = pick(j);
            if p {
                format!("magnitude(), normalized() or distance() of {a:?} and {b:?} panics")
            } else {
                check(a, b).unwrap_or_default()
            }
        },
    );
    rep.count("pairs", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    // history: small integers, lengths in sixteenths
    let mut g = Rng::new(cx.seed, 2400 + dim as u64);
    for i in 0..(if cx.thorough { 5000 } else { 500 }) {
        let mut one = || -> V { V::make(&(0..3).map(|_| C::of(g.range(if C::LO < 0 { -18 } else { 0 }, 18))).collect::<Vec<C>>()) };
        let (a, b) = (one(), one());
        let ints = |v: V| format!("{:?}", v.comps().iter().map(|c| c.int()).collect::<Vec<_>>());
        let m = |x: f32| if x.is_finite() && x < 1e6 { (x * 16.0).floor() as i64 } else { -1 };
        let Some((l, d, k)) = sweep::guard(|| (a.magnitude(), a.distance(b), b.distance(a))) else {
            rep.violation(format!("magnitude() or distance() of {a:?}, {b:?} panics"));
            continue;
        };
        if i % 2 == 0 {
            writeln!(text, "{{\"op\":\"magnitude\",\"u\":{},\"m\":{}}}", ints(a), m(l)).unwrap();
        } else {
            writeln!(text, "{{\"op\":\"distance\",\"u\":{},\"v\":{},\"m\":{},\"back\":{}}}", ints(a), ints(b), m(d), m(k)).unwrap();
        }
        rep.count("events", 1);
    }
    rep.sample(format!("{}: {:?}", C::NAME, { let (a, b) = pick(3); (a, b, sweep::guard(|| (a.magnitude(), a.distance(b)))) }));
}

fn perp2<C: Comp>(a: Vector2d<C>, b: Vector2d<C>) -> Option<C> {
    Some(a.perpendicular_dot(b))
}
fn perp3<C: Comp>(_: Vector3d<C>, _: Vector3d<C>) -> Option<C> {
    None
}
fn lift2<C: Comp>(v: Vector2d<C>) -> Option<Vector3d<C>> {
    Some(Vector3d::from(v))
}
fn lift3<C: Comp>(_: Vector3d<C>) -> Option<Vector3d<C>> {
    None
}
fn to2<C: Comp>(v: Vector2d<C>) -> Option<Vec<f32>>
where
    F32x2: From<Vector2d<C>>,
{
    let f = F32x2::from(v);
    Some(vec![f.x, f.y])
}
fn to3<C: Comp>(v: Vector3d<C>) -> Option<Vec<f32>>
where
    F32x3: From<Vector3d<C>>,
{
    let f = F32x3::from(v);
    Some(vec![f.x, f.y, f.z])
}

fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let table = rows::load(&args.req("rows"));
    rep.count("rows", table.len() as u64);
    let mode = args.req("mode");
    let mut text = String::new();
    let mut hist = String::new();
    if mode == "lengths" {
        let r = |k: &str| {
            let v = table[0].ints(k);
            v[0] as f64 / v[1] as f64
        };
        assert!(table[0].int("minexp") == -60 && table[0].int("maxexp") == 60);
        let bd = Bounds { low: r("low"), high: r("high"), ulow: r("unitlow"), uhigh: r("unithigh") };
        let cx = Ctx { polys: Polys::new(&[]), seed: args.seed(), thorough: args.thorough(), methods: args.opt("methods").map(|p| Table::load(&p)) };
        macro_rules! go {
            ($($t:ident)*) => {$(
                lengths::<$t, Vector2d<$t>>(&mut rep, &cx, &mut text, &bd, |_| None);
                lengths::<$t, Vector3d<$t>>(&mut rep, &cx, &mut text, &bd, |_| None);
            )*};
        }
        go!(i8 i16 u8 u16);
        lengths::<f32, Vector2d<f32>>(&mut rep, &cx, &mut text, &bd, |v| Some(v.normalized()));
        lengths::<f32, Vector3d<f32>>(&mut rep, &cx, &mut text, &bd, |v| Some(v.normalized()));
        lengths::<F32, Vector2d<F32>>(&mut rep, &cx, &mut text, &bd, |v| Some(v.normalized()));
        lengths::<F32, Vector3d<F32>>(&mut rep, &cx, &mut text, &bd, |v| Some(v.normalized()));
        std::fs::write(args.req("trace"), text).unwrap_or_else(|e| harness::die(&e.to_string()));
        rep.finish()
    }
    let cx = Ctx { polys: Polys::new(&table), seed: args.seed(), thorough: args.thorough(), methods: args.opt("methods").map(|p| Table::load(&p)) };
    let ev = if cx.thorough { 4000 } else { 300 };
    macro_rules! each {
        ($t:ident, $f2:expr, $f3:expr) => {
            match mode.as_str() {
                "arith" => {
                    arith::<$t, Vector2d<$t>>(&mut rep, &cx);
                    arith::<$t, Vector3d<$t>>(&mut rep, &cx);
                    history::<$t, Vector2d<$t>>(&mut rep, &cx, &mut text, false, ev, lift2, perp2);
                    history::<$t, Vector3d<$t>>(&mut rep, &cx, &mut text, false, ev, lift3, perp3);
                }
                "products" => {
                    products::<$t, Vector2d<$t>>(&mut rep, &cx, perp2);
                    products::<$t, Vector3d<$t>>(&mut rep, &cx, perp3);
                    history::<$t, Vector2d<$t>>(&mut rep, &cx, &mut text, true, ev, lift2, perp2);
                    history::<$t, Vector3d<$t>>(&mut rep, &cx, &mut text, true, ev, lift3, perp3);
                }
                _ => {
                    access::<$t, Vector2d<$t>>(&mut rep, &cx, &mut text, &mut hist, $f2, lift2);
                    access::<$t, Vector3d<$t>>(&mut rep, &cx, &mut text, &mut hist, $f3, lift3);
                }
            }
        };
    }
    each!(i8, to2, to3);
    each!(i16, to2, to3);
    each!(i32, |_| None, |_| None);
    each!(u8, to2, to3);
    each!(u16, to2, to3);
    each!(u32, |_| None, |_| None);
    each!(f32, |_| None, |_| None);
    each!(F32, |_| None, to3);
    std::fs::write(args.req("trace"), text).unwrap_or_else(|e| harness::die(&e.to_string()));
    if let Some(p) = args.opt("iterators") {
        std::fs::write(p, hist).unwrap_or_else(|e| harness::die(&e.to_string()));
    }
    for j in 0..3 {
        let mut g = gen(cx.seed, j);
        rep.sample(format!("{:?}", vec::<i16, Vector3d<i16>>(&mut g)));
    }
    rep.finish()
}
