//! C36: vectors of components that only record what is done to them, and vectors of other dimensions; histories for spec/SymbolsTrace.tla.
//! Lengths and rotations of vectors with components of a user's type, and of other dimensions, for spec/ProductsTrace.tla.
use harness::delicate::num;
use harness::iters::Table;
use harness::{out::Report, poly, sweep, Args, Rng};
use micromath::vector::{Component, Vector, Vector2d, Vector3d};
use micromath::{Quaternion, F32};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::fmt::Write;
use std::iter::Sum;
use std::ops::*;

/// A component: its number among those made so far. Number 0 is the default one
#[derive(Clone, Copy, Debug, Default)]
struct Sym(u32);
#[derive(Default)]
struct Record {
    next: u32,
    text: String,
    /// outcomes of comparisons: those still to be given, and those given
    script: Vec<u8>,
    given: Vec<u8>,
}
thread_local! {
    static REC: RefCell<Record> = RefCell::new(Record::default());
}
fn made(o: &str, a: Sym, b: Sym) -> Sym {
    REC.with_borrow_mut(|r| {
        writeln!(r.text, "{{\"k\":\"op\",\"o\":\"{o}\",\"a\":{},\"b\":{}}}", a.0, b.0).unwrap();
        r.next += 1;
        Sym(r.next - 1)
    })
}
impl Add for Sym {
    type Output = Sym;
    fn add(self, o: Sym) -> Sym {
        made("add", self, o)
    }
}
impl Sub for Sym {
    type Output = Sym;
    fn sub(self, o: Sym) -> Sym {
        made("sub", self, o)
    }
}
impl Mul for Sym {
    type Output = Sym;
    fn mul(self, o: Sym) -> Sym {
        made("mul", self, o)
    }
}
impl Div for Sym {
    type Output = Sym;
    fn div(self, o: Sym) -> Sym {
        made("div", self, o)
    }
}
impl Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(iter: I) -> Sym {
        iter.fold(Sym(0), |a, b| a + b)
    }
}
/// The outcome of a comparison of two different components: whatever the script says. They are never equal
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if self.0 == o.0 {
            return Some(Ordering::Equal);
        }
        REC.with_borrow_mut(|r| {
            let c = if r.given.len() < r.script.len() { r.script[r.given.len()] } else { 0 };
            r.given.push(c);
            [None, Some(Ordering::Less), Some(Ordering::Greater)][c as usize]
        })
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        self.0 == o.0
    }
}
impl Component for Sym {}

/// A vector type of a user, with N axes
#[derive(Clone, Copy, Debug, PartialEq)]
struct Own<C, const N: usize>([C; N]);
impl<C: Component, const N: usize> Default for Own<C, N> {
    fn default() -> Self {
        Own([C::default(); N])
    }
}
impl<C: Component, const N: usize> FromIterator<C> for Own<C, N> {
    fn from_iter<T: IntoIterator<Item = C>>(items: T) -> Self {
        let all: Vec<C> = items.into_iter().take(N + 1).collect();
        Own(all.try_into().expect("as many components as axes"))
    }
}
impl<C: Component, const N: usize> Vector<C> for Own<C, N> {
    const AXES: usize = N;
    fn get(self, index: usize) -> Option<C> {
        self.0.get(index).copied()
    }
    fn dot(self, rhs: Self) -> C {
        (1..N).fold(self.0[0] * rhs.0[0], |t, i| t + self.0[i] * rhs.0[i])
    }
}

#[derive(Clone, Copy)]
struct State<V> {
    u: V,
    v: V,
    s: Sym,
}
type Call<V> = (&'static str, &'static str, fn(State<V>, usize) -> Vec<Sym>);
trait Tested: Vector<Sym> + 'static {
    fn make(c: &[Sym]) -> Self;
    fn calls() -> Vec<Call<Self>>;
}
fn comps<V: Vector<Sym>>(v: V) -> Vec<Sym> {
    (0..V::AXES).map(|i| v.get(i).unwrap()).collect()
}
fn row<V: Vector<Sym>>(s: State<V>, c: usize) -> Vec<V> {
    (0..c).map(|i| if i % 2 == 0 { s.u } else { s.v }).collect()
}
/// The calls of the trait, for any vector type
fn common<V: Vector<Sym>>() -> Vec<Call<V>> {
    vec![
        ("dot", "Vector::dot", |s, _| vec![Vector::dot(s.u, s.v)]),
        ("magsq", "magnitude_sq", |s, _| vec![s.u.magnitude_sq()]),
        ("same", "from_slice", |s, _| comps(V::from_slice(&comps(s.u)))),
        ("same", "collect", |s, _| comps(s.u.iter().collect::<V>())),
        ("same", "collect a clone", |s, _| {
            let mut i = s.u.iter();
            let rest = i.clone();
            i.next();
            comps(rest.collect::<V>())
        }),
        ("same", "map", |s, _| comps({ s }.u.map(|c| c))),
        ("same", "iter", |s, _| s.u.iter().take(20).collect()),
        ("same", "zip", |s, _| s.u.iter().zip(s.v.iter()).map(|(a, _)| a).take(20).collect()),
        ("double", "map", |s, _| comps({ s }.u.map(|c| c + c))),
        ("default", "default", |_, _| comps(V::default())),
        ("part", "iter", |s, c| vec![s.u.iter().nth(c - 1).unwrap()]),
        ("part", "skip", |s, c| vec![s.u.iter().skip(c - 1).next().unwrap()]),
        ("part", "get", |s, c| vec![s.u.get(c - 1).unwrap()]),
        ("part", "last", |s, c| vec![s.u.iter().take(c).last().unwrap()]),
        ("plus", "get", |s, c| vec![s.s + s.u.get(c - 1).unwrap()]),
    ]
}
macro_rules! operators {
    ($v:ty) => {{
        let mut all = common::<$v>();
        let more: Vec<Call<$v>> = vec![
            ("add", "u + v", |s, _| comps(s.u + s.v)),
            ("add", "u += v", |s, _| {
                let mut t = s.u;
                t += s.v;
                comps(t)
            }),
            ("sub", "u - v", |s, _| comps(s.u - s.v)),
            ("sub", "u -= v", |s, _| {
                let mut t = s.u;
                t -= s.v;
                comps(t)
            }),
            ("scale", "u * s", |s, _| comps(s.u * s.s)),
            ("scale", "u *= s", |s, _| {
                let mut t = s.u;
                t *= s.s;
                comps(t)
            }),
            ("divide", "u / s", |s, _| comps(s.u / s.s)),
            ("divide", "u /= s", |s, _| {
                let mut t = s.u;
                t /= s.s;
                comps(t)
            }),
            ("dot", "dot", |s, _| vec![s.u.dot(s.v)]),
            ("cross", "cross", |s, _| comps(s.u.cross(s.v))),
            ("cross", "u * v", |s, _| comps(s.u * s.v)),
            ("total", "sum", |s, c| comps(row(s, c).into_iter().sum::<$v>())),
            ("total", "sum of references", |s, c| comps(row(s, c).iter().sum::<$v>())),
            ("part", "index", |s, c| vec![s.u[c - 1]]),
            ("part", "to_array", |s, c| vec![s.u.to_array()[c - 1]]),
            ("same", "to_array", |s, _| comps(<$v>::from(s.u.to_array()))),
        ];
        all.extend(more);
        all
    }};
}
impl Tested for Vector2d<Sym> {
    fn make(c: &[Sym]) -> Self {
        Vector2d { x: c[0], y: c[1] }
    }
    fn calls() -> Vec<Call<Self>> {
        let mut all = operators!(Vector2d<Sym>);
        let more: Vec<Call<Self>> = vec![
            ("perp", "perpendicular_dot", |s, _| vec![s.u.perpendicular_dot(s.v)]),
            ("lift", "Vector3d::from", |s, _| comps(Vector3d::from(s.u))),
            ("same", "tuple", |s, _| comps(Vector2d::from(<(Sym, Sym)>::from(s.u)))),
            ("same", "array", |s, _| comps(Vector2d::from(<[Sym; 2]>::from(s.u)))),
            ("same", "fields", |s, _| vec![s.u.x, s.u.y]),
        ];
        all.extend(more);
        all
    }
}
impl Tested for Vector3d<Sym> {
    fn make(c: &[Sym]) -> Self {
        Vector3d { x: c[0], y: c[1], z: c[2] }
    }
    fn calls() -> Vec<Call<Self>> {
        let mut all = operators!(Vector3d<Sym>);
        let more: Vec<Call<Self>> = vec![
            ("same", "tuple", |s, _| comps(Vector3d::from(<(Sym, Sym, Sym)>::from(s.u)))),
            ("same", "array", |s, _| comps(Vector3d::from(<[Sym; 3]>::from(s.u)))),
            ("same", "fields", |s, _| vec![s.u.x, s.u.y, s.u.z]),
        ];
        all.extend(more);
        all
    }
}
impl<const N: usize> Tested for Own<Sym, N> {
    fn make(c: &[Sym]) -> Self {
        Own(c.try_into().unwrap())
    }
    fn calls() -> Vec<Call<Self>> {
        common::<Self>()
    }
}

const SCALARS: [&str; 5] = ["dot", "perp", "magsq", "part", "plus"];
enum Act {
    Call(usize, usize),
    Swap,
}
/// Runs a program, once for each outcome of the comparisons it makes
fn program<V: Tested>(rep: &mut Report, name: &str, acts: &[Act], text: &mut String) -> u64 {
    let calls = V::calls();
    let d = V::AXES;
    let mut script: Vec<u8> = vec![];
    let mut runs = 0;
    loop {
        REC.with_borrow_mut(|r| *r = Record { next: 2 * d as u32 + 2, text: format!("{{\"k\":\"fresh\",\"d\":{d}}}\n"), script: script.clone(), given: vec![] });
        let var = |i: usize| Sym(1 + i as u32);
        let c: Vec<Sym> = (0..2 * d).map(var).collect();
        let mut st = State { u: V::make(&c[..d]), v: V::make(&c[d..]), s: var(2 * d) };
        for a in acts {
            match a {
                Act::Swap => {
                    std::mem::swap(&mut st.u, &mut st.v);
                    REC.with_borrow_mut(|r| r.text += "{\"k\":\"swap\"}\n");
                }
                Act::Call(i, c) => {
                    let (f, form, call) = calls[*i];
                    let Some(res) = sweep::guard(|| call(st, *c)) else {
                        rep.violation(format!("{f} of {name} ({form}, {c}) panics"));
                        return runs;
                    };
                    let ids = res.iter().map(|s| s.0.to_string()).collect::<Vec<_>>().join(",");
                    REC.with_borrow_mut(|r| writeln!(r.text, "{{\"k\":\"call\",\"of\":\"{name}\",\"f\":\"{f}\",\"form\":\"{form}\",\"c\":{c},\"r\":[{ids}]}}").unwrap());
                    if SCALARS.contains(&f) {
                        st.s = res[0];
                    } else if res.len() == d {
                        st.u = V::make(&res);
                    }
                }
            }
        }
        runs += 1;
        let given = REC.with_borrow_mut(|r| {
            *text += &r.text;
            std::mem::take(&mut r.given)
        });
        // the next outcomes of the comparisons
        script = given;
        while script.last() == Some(&2) {
            script.pop();
        }
        match script.last_mut() {
            Some(c) if runs < 81 => *c += 1,
            _ => return runs,
        }
    }
}
fn all<V: Tested>(rep: &mut Report, name: &str, seed: u64, random: u64, text: &mut String) {
    let calls = V::calls();
    let d = V::AXES;
    let least = |f: &str| if f == "part" || f == "plus" { 1..=d } else if f == "total" { 0..=5 } else { 0..=0 };
    let mut programs = 0;
    for (i, c) in calls.iter().enumerate() {
        for n in least(c.0) {
            programs += program::<V>(rep, name, &[Act::Call(i, n)], text);
        }
    }
    for j in 0..random {
        let mut g = Rng::new(seed, 40_000 + j);
        let n = g.range(2, 4);
        // products of more than 3 factors are large
        let mut products = 0;
        let acts: Vec<Act> = (0..n)
            .map(|_| {
                if g.below(6) == 0 {
                    return Act::Swap;
                }
                loop {
                    let i = g.below(calls.len() as u64) as usize;
                    let f = calls[i].0;
                    if ["scale", "dot", "perp", "cross", "magsq"].contains(&f) {
                        if products == 2 {
                            continue;
                        }
                        products += 1;
                    }
                    let r = least(f);
                    return Act::Call(i, g.range(*r.start() as i64, *r.end() as i64) as usize);
                }
            })
            .collect();
        programs += program::<V>(rep, name, &acts, text);
    }
    rep.count("programs", programs);
    rep.count(name, calls.len() as u64);
}

/// A fixed point number, in eighths
#[derive(Clone, Copy, Debug, Default, PartialEq, PartialOrd)]
struct Eighths(i64);
impl Add for Eighths {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Eighths(self.0 + o.0)
    }
}
impl Sub for Eighths {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Eighths(self.0 - o.0)
    }
}
impl Mul for Eighths {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Eighths(self.0 * o.0 / 8)
    }
}
impl Div for Eighths {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        Eighths(self.0 * 8 / o.0)
    }
}
impl Component for Eighths {}
impl From<Eighths> for f32 {
    fn from(e: Eighths) -> f32 {
        e.0 as f32 / 8.0
    }
}
impl From<f32> for Eighths {
    fn from(x: f32) -> Self {
        Eighths((x * 8.0).round() as i64)
    }
}
fn list(c: &[f32]) -> String {
    format!("[{}]", c.iter().map(|x| num(*x)).collect::<Vec<_>>().join(","))
}
fn values<C: Component + Into<f32>, V: Vector<C>>(v: V) -> Vec<f32> {
    (0..V::AXES).map(|i| v.get(i).unwrap().into()).collect()
}
/// Components: similar, of different sizes, few of them not zero, or integers
fn numbers(g: &mut Rng, n: usize, top: i64) -> Vec<f32> {
    let kind = g.below(5);
    (0..n)
        .map(|_| {
            let s = g.pick(&[1.0, -1.0]) * (1.0 + g.unit());
            (match kind {
                0 => g.range(-30, 30) as f64,
                1 => s,
                2 if g.below(3) > 0 => 0.0,
                3 => s * 2f64.powi(g.range(1, top) as i32),
                _ => s * 2f64.powi(g.range(-top, top - 1) as i32),
            }) as f32
        })
        .collect()
}
fn lengths<C: Component + Into<f32> + From<f32>, V: Vector<C>>(g: &mut Rng, top: i64, normalized: bool, text: &mut String) {
    let make = |g: &mut Rng| V::from_iter(numbers(g, V::AXES, top).into_iter().map(C::from));
    let (u, v) = (make(g), make(g));
    let (x, y) = (values(u), values(v));
    match g.below(3) {
        0 => writeln!(text, "{{\"fn\":\"length\",\"x\":{},\"r\":{}}}", list(&x), num(u.magnitude())),
        1 if normalized => {
            // some forms of a type keep more of the numbers than others
            writeln!(text, "{{\"fn\":\"normalized\",\"x\":{},\"m\":{},\"r\":{}}}", list(&x), num(u.magnitude()), list(&values(u.normalized())))
        }
        _ => {
            let d: Vec<f32> = x.iter().zip(&y).map(|(a, b)| a - b).collect();
            writeln!(text, "{{\"fn\":\"distance\",\"x\":{},\"y\":{},\"d\":{},\"r\":{},\"back\":{}}}", list(&x), list(&y), list(&d), num(u.distance(v)), num(v.distance(u)))
        }
    }
    .unwrap();
}
fn rotation(g: &mut Rng, text: &mut String) {
    let q: Vec<f32> = numbers(g, 4, 8);
    let v = Vector3d::<Eighths>::from_iter(numbers(g, 3, 8).into_iter().map(Eighths::from));
    let mut all = [0f32; 22];
    all[poly::Q..poly::Q + 4].copy_from_slice(&q);
    all[poly::A..poly::A + 3].copy_from_slice(&values(v));
    let q = Quaternion::new(q[0], q[1], q[2], q[3]);
    let r = if g.below(2) == 0 { q.rotate(v) } else { q * v };
    writeln!(text, "{{\"fn\":\"rotate\",\"x\":{},\"r\":{}}}", list(&all), list(&[r.x, r.y, r.z])).unwrap();
}
fn measured(rep: &mut Report, seed: u64, count: u64) -> String {
    let mut text = String::new();
    for j in 0..count {
        let mut g = Rng::new(seed, 50_000 + j);
        let mut one = String::new();
        let kind = g.below(12);
        let done = sweep::guard(|| match kind {
            0 => lengths::<Eighths, Vector2d<Eighths>>(&mut g, 12, false, &mut one),
            1 => lengths::<Eighths, Vector3d<Eighths>>(&mut g, 12, false, &mut one),
            2 => lengths::<Eighths, Own<Eighths, 4>>(&mut g, 12, false, &mut one),
            3 => lengths::<f32, Own<f32, 1>>(&mut g, 59, true, &mut one),
            4 => lengths::<f32, Own<f32, 4>>(&mut g, 59, true, &mut one),
            5 => lengths::<F32, Own<F32, 5>>(&mut g, 59, true, &mut one),
            6 => lengths::<F32, Own<F32, 7>>(&mut g, 59, true, &mut one),
            7 => lengths::<f32, Own<f32, 6>>(&mut g, 59, true, &mut one),
            8 => lengths::<F32, Own<F32, 12>>(&mut g, 59, true, &mut one),
            9 => lengths::<f32, Own<f32, 3>>(&mut g, 59, true, &mut one),
            _ => rotation(&mut g, &mut one),
        });
        if done.is_none() {
            rep.violation(format!("event {j} (kind {kind}) panics, after {}", text.lines().last().unwrap_or("nothing")));
            break;
        }
        text += &one;
    }
    rep.count("lengths", text.lines().count() as u64);
    text
}

/// All methods of iterators, over the components of all kinds of vectors
fn methods<C: Component + PartialEq + From<f32>, V: Vector<C>>(rep: &mut Report, t: &Table, g: &mut Rng) {
    for _ in 0..20 {
        let c: Vec<C> = (0..V::AXES).map(|_| C::from(g.range(-9, 9) as f32)).collect();
        match sweep::guard(|| {
            let v = V::from_slice(&c);
            t.agree(|| v.iter(), |a, b| a == b, &c)
        }) {
            Some(None) => rep.count("iterators", 1),
            Some(Some(e)) => return rep.violation(format!("iter() of a vector with {} axes: {e}", V::AXES)),
            None => return rep.violation(format!("iter() of a vector with {} axes panics", V::AXES)),
        }
    }
}
fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let seed = args.seed();
    let n: u64 = args.opt("programs").map_or(100, |s| s.parse().unwrap()) * if args.thorough() { 20 } else { 1 };
    let mut text = String::new();
    all::<Vector2d<Sym>>(&mut rep, "Vector2d", seed, 2 * n, &mut text);
    all::<Vector3d<Sym>>(&mut rep, "Vector3d", seed, 2 * n, &mut text);
    all::<Own<Sym, 1>>(&mut rep, "a vector with 1 axis", seed, n / 10, &mut text);
    all::<Own<Sym, 2>>(&mut rep, "a vector with 2 axes", seed, n / 10, &mut text);
    all::<Own<Sym, 3>>(&mut rep, "a vector with 3 axes", seed, n / 10, &mut text);
    all::<Own<Sym, 4>>(&mut rep, "a vector with 4 axes", seed, n / 10, &mut text);
    all::<Own<Sym, 5>>(&mut rep, "a vector with 5 axes", seed, n / 10, &mut text);
    all::<Own<Sym, 6>>(&mut rep, "a vector with 6 axes", seed, n / 10, &mut text);
    all::<Own<Sym, 7>>(&mut rep, "a vector with 7 axes", seed, n / 10, &mut text);
    all::<Own<Sym, 8>>(&mut rep, "a vector with 8 axes", seed, n / 10, &mut text);
    all::<Own<Sym, 9>>(&mut rep, "a vector with 9 axes", seed, n / 10, &mut text);
    all::<Own<Sym, 12>>(&mut rep, "a vector with 12 axes", seed, n / 10, &mut text);
    all::<Own<Sym, 16>>(&mut rep, "a vector with 16 axes", seed, n / 10, &mut text);
    rep.count("events", text.lines().count() as u64);
    let write = |name: &str, text: &str| std::fs::write(args.req(name), text).unwrap_or_else(|e| harness::die(&format!("{e}")));
    write("trace", &text);
    let events = args.opt("events").map_or(1000, |s| s.parse().unwrap()) * if args.thorough() { 20 } else { 1 };
    let more = measured(&mut rep, seed, events);
    write("lengths", &more);
    if let Some(t) = args.opt("methods").map(|p| Table::load(&p)) {
        let mut g = Rng::new(seed, 60_000);
        methods::<Eighths, Vector2d<Eighths>>(&mut rep, &t, &mut g);
        methods::<Eighths, Vector3d<Eighths>>(&mut rep, &t, &mut g);
        methods::<f32, Own<f32, 1>>(&mut rep, &t, &mut g);
        methods::<F32, Own<F32, 2>>(&mut rep, &t, &mut g);
        methods::<F32, Own<F32, 3>>(&mut rep, &t, &mut g);
        methods::<Eighths, Own<Eighths, 4>>(&mut rep, &t, &mut g);
        methods::<f32, Own<f32, 6>>(&mut rep, &t, &mut g);
        methods::<f32, Own<f32, 8>>(&mut rep, &t, &mut g);
    }
    rep.finish()
}
