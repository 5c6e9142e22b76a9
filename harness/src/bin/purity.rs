//! C37: calls in fresh processes, in sequences (the words of spec/PurityWords.tla), and in threads, whose results must not
//! depend on any of that. --rows: the words; --trace: where to write the history of the threads; --events: its length.
use harness::{out::Report, rows, sweep, Args, Rng};
use micromath::{statistics::*, vector::*, F32Ext, Quaternion, F32};
use num_traits::{Num, One, Zero};
use std::fmt::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;

/// A result: bits of numbers (any NaN is one), or of what else a call gives
type Out = Vec<u32>;
trait Show {
    fn bits(&self, o: &mut Out);
}
impl Show for f32 {
    fn bits(&self, o: &mut Out) {
        o.push(if self.is_nan() { 0x7fc0_0000 } else { self.to_bits() })
    }
}
impl Show for F32 {
    fn bits(&self, o: &mut Out) {
        self.0.bits(o)
    }
}
macro_rules! show {
    ($($t:ty),*; $($g:ident),*) => { $(impl Show for $t { fn bits(&self, o: &mut Out) { o.push(*self as u32) } })* };
}
show!(i8, u8, i16, u16, i32, u32, bool, usize;);
impl<A: Show, B: Show> Show for (A, B) {
    fn bits(&self, o: &mut Out) {
        self.0.bits(o);
        self.1.bits(o)
    }
}
impl<A: Show, B: Show, C: Show> Show for (A, B, C) {
    fn bits(&self, o: &mut Out) {
        self.0.bits(o);
        self.1.bits(o);
        self.2.bits(o)
    }
}
impl<T: Show> Show for Option<T> {
    fn bits(&self, o: &mut Out) {
        o.push(self.is_some() as u32);
        self.iter().for_each(|v| v.bits(o))
    }
}
impl<T: Show, E> Show for Result<T, E> {
    fn bits(&self, o: &mut Out) {
        o.push(self.is_ok() as u32);
        self.iter().for_each(|v| v.bits(o))
    }
}
impl<T: Show> Show for Vec<T> {
    fn bits(&self, o: &mut Out) {
        self.iter().for_each(|v| v.bits(o))
    }
}
impl Show for String {
    fn bits(&self, o: &mut Out) {
        o.extend(self.bytes().map(|b| b as u32))
    }
}
impl Show for Quaternion {
    fn bits(&self, o: &mut Out) {
        self.to_array().iter().for_each(|v| v.bits(o))
    }
}
impl<C: Component + Show> Show for Vector2d<C> {
    fn bits(&self, o: &mut Out) {
        self.x.bits(o);
        self.y.bits(o)
    }
}
impl<C: Component + Show> Show for Vector3d<C> {
    fn bits(&self, o: &mut Out) {
        self.x.bits(o);
        self.y.bits(o);
        self.z.bits(o)
    }
}
impl Show for std::cmp::Ordering {
    fn bits(&self, o: &mut Out) {
        o.push(*self as i8 as u32)
    }
}

/// Numbers that calls take as arguments, a row of them for each set
const NUMS: [f32; 26] = [
    0.0, 1.0, -1.0, 0.5, 2.0, -2.5, 3.7, -0.0, 100.25, 1e-10, -7.0, f32::INFINITY, 1e10, f32::NAN, 1e-40, -0.3, f32::NEG_INFINITY, -1e-4,
    // near others, or of the same mantissa or exponent
    3.7000003, 3.701, 1.0000001, 1.01, 7.4, -3.7, 0.501, 2.25,
];
const SETS: usize = NUMS.len();
const NEAR: usize = 10;
fn arg(set: usize, i: usize) -> f32 {
    // numbers near each other, as one of the arguments
    if set >= SETS {
        let (which, k) = ((set - SETS) / NEAR, (set - SETS) % NEAR);
        return if i == which { 1.37 * (1.0 + 2f32.powi(-3 - 2 * k as i32)) } else { [0.8, 5.3, -2.25][i] };
    }
    NUMS[(set + i * (1 + set / 3)) % SETS]
}
/// Numbers that vectors and quaternions have, not too large
fn part(set: usize, i: usize) -> f32 {
    [1.0, -2.0, 0.5, 3.0, 0.0, -1.0, 2.5, 8.0, -0.25, 1.5][(set * 3 + i * (1 + set / 2)) % 10]
}
fn int(set: usize, i: usize) -> i32 {
    [1, 2, 0, 3, -1, 7, 5, -4][(set * 5 + i * (1 + set / 2)) % 8]
}
struct Call {
    name: String,
    set: usize,
    f: fn(usize) -> Out,
}
fn out<T: Show>(t: T) -> Out {
    let mut o = vec![];
    t.bits(&mut o);
    o
}
macro_rules! calls {
    ($v:ident; $($name:literal $n:literal: |$s:ident| $e:expr;)*) => { $(for set in 0..$n { $v.push(Call { name: $name.into(), set, f: |$s| out($e) }); })* };
}
macro_rules! vectors {
    ($v:ident, $t:ty, $c:ty, $make:expr, $num:expr) => {{
        fn u(s: usize) -> $t { let f: fn(usize, usize) -> $t = $make; f(s, 0) }
        fn w(s: usize) -> $t { let f: fn(usize, usize) -> $t = $make; f(s + 1, 5) }
        fn k(s: usize) -> $c { let f: fn(usize) -> $c = $num; f(s) }
        let mut list: Vec<Call> = vec![];
        calls! { list;
            " +" 6: |s| u(s) + w(s);
            " -" 6: |s| u(s) - w(s);
            " * k" 6: |s| u(s) * k(s);
            " / k" 6: |s| u(s) / k(s);
            " dot" 6: |s| u(s).dot(w(s));
            " trait dot" 6: |s| Vector::dot(u(s), w(s));
            " cross" 6: |s| u(s) * w(s);
            " magnitude" 6: |s| u(s).magnitude();
            " magnitude_sq" 6: |s| u(s).magnitude_sq();
            " distance" 6: |s| u(s).distance(w(s));
            " iter" 6: |s| u(s).iter().take(9).collect::<Vec<_>>();
            " map" 6: |s| { let mut v = u(s); let m = v.map(|c| c + c); (m, v) };
            " from_slice" 6: |s| <$t>::from_slice(&[k(s), k(s + 1), k(s + 2)][..<$t>::AXES]);
            " get" 4: |s| u(1).get(s);
            " index" 4: |s| u(1)[s];
            " ==" 4: |s| u(s) == w(s);
            " sum" 6: |s| [u(s), w(s), u(s + 1)].into_iter().sum::<$t>();
        }
        $v.extend(list.into_iter().map(|c| Call { name: format!("{}{}", stringify!($t), c.name), ..c }));
    }};
}
fn calls() -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    fn a(s: usize) -> F32 { F32(arg(s, 0)) }
    fn b(s: usize) -> F32 { F32(arg(s, 1)) }
    fn c(s: usize) -> F32 { F32(arg(s, 2)) }
    calls! { v;
        "abs" 36: |s| a(s).abs(); "acos" 36: |s| a(s).0.acos_(); "asin" 36: |s| a(s).asin(); "atan" 36: |s| a(s).atan(); "atan_norm" 36: |s| a(s).atan_norm();
        "atan2" 46: |s| a(s).atan2(b(s)); "atan2_norm" 46: |s| F32Ext::atan2_norm(a(s).0, b(s).0); "ceil" 36: |s| a(s).ceil(); "copysign" 46: |s| a(s).copysign(b(s));
        "cos" 36: |s| a(s).cos(); "cosh" 36: |s| a(s).cosh(); "div_euclid" 46: |s| a(s).div_euclid(b(s)); "exp" 36: |s| a(s).exp(); "floor" 36: |s| a(s).floor();
        "fract" 36: |s| a(s).fract(); "hypot" 46: |s| a(s).hypot(b(s)); "inv" 36: |s| a(s).inv(); "invsqrt" 36: |s| a(s).invsqrt(); "ln" 36: |s| a(s).ln();
        "log" 46: |s| a(s).log(b(s)); "log2" 36: |s| a(s).log2(); "log10" 36: |s| a(s).log10(); "mul_add" 56: |s| a(s).mul_add(b(s), c(s));
        "powf" 46: |s| a(s).powf(b(s)); "powi" 36: |s| a(s).powi([2, 0, -1, 3, 1, -3, 10, i32::MIN, 7, 4][s % 10]); "recip" 36: |s| a(s).recip();
        "rem_euclid" 46: |s| a(s).rem_euclid(b(s)); "round" 36: |s| a(s).round(); "signum" 36: |s| a(s).signum(); "sin" 36: |s| a(s).sin(); "sin_cos" 36: |s| a(s).sin_cos();
        "sqrt" 36: |s| a(s).sqrt(); "tan" 36: |s| a(s).tan(); "trunc" 36: |s| a(s).trunc();
        "+" 46: |s| a(s) + b(s); "-" 46: |s| a(s) - b(s); "*" 46: |s| a(s) * b(s); "/" 46: |s| a(s) / b(s); "%" 46: |s| a(s) % b(s); "neg" 9: |s| -a(s);
        "cmp" 46: |s| a(s).partial_cmp(&b(s)); "==" 46: |s| a(s) == b(s);
        "sum" 6: |s| [a(s), b(s), c(s)].into_iter().sum::<F32>(); "product" 6: |s| [a(s), b(s), c(s)].into_iter().product::<F32>();
        "{}" 36: |s| format!("{}", a(s)); "{:e}" 36: |s| format!("{:e}", a(s)); "{:+9.2}" 9: |s| format!("{:+9.2}", a(s)); "{:E}" 9: |s| format!("{:E}", a(s)); "{:?}" 9: |s| format!("{:?}", a(s));
        "parse" 9: |s| ["1", "-2.5e3", "x", "", "inf", "0.1", "NaN", "1e-50", "7."][s].parse::<F32>();
        "from_str_radix" 6: |s| F32::from_str_radix(["11", "ff", "1.5", "-10", "z", "7"][s], [2, 16, 10, 8, 36, 8][s]);
        "is_zero" 9: |s| (a(s).is_zero(), a(s).is_one()); "num_traits inv" 9: |s| num_traits::Inv::inv(a(s));
        "i16" 6: |s| F32::from(int(s, 0) as i16); "u8" 6: |s| F32::from(int(s, 1) as u8); "to u32" 6: |s| f32::from(a(s)).to_bits();
    }
    fn q(s: usize) -> Quaternion { Quaternion::new(part(s, 0), part(s, 1), part(s, 2), part(s, 3)) }
    fn p(s: usize) -> Quaternion { Quaternion::new(part(s, 4), part(s, 5), part(s, 7), part(s, 6)) }
    fn r(s: usize) -> Vector3d<f32> { Vector3d { x: part(s, 2), y: part(s, 5), z: part(s, 1) } }
    fn t(s: usize) -> Vector3d<f32> { Vector3d { x: part(s, 1), y: part(s, 0), z: part(s, 6) } }
    fn i(s: usize) -> Vector3d<i16> { Vector3d { x: int(s, 2) as i16, y: int(s, 5) as i16, z: 1 } }
    calls! { v;
        "q * p" 9: |s| q(s) * p(s); "q + p" 9: |s| q(s) + p(s); "q - p" 9: |s| q(s) - p(s); "q * k" 9: |s| q(s) * part(s, 9); "k * q" 9: |s| part(s, 9) * q(s); "conj" 9: |s| q(s).conj();
        "q.dot" 9: |s| q(s).dot(p(s)); "norm" 9: |s| q(s).norm(); "q.magnitude" 9: |s| q(s).magnitude(); "normalize" 9: |s| q(s).normalize(); "q.inv" 9: |s| q(s).inv(); "q.scale" 9: |s| q(s).scale(part(s, 8));
        "rotate" 9: |s| q(s).rotate(r(s)); "q * v" 9: |s| q(s) * r(s); "rotate i16" 9: |s| q(s).rotate(Vector3d { x: F32(part(s, 2)), y: F32(part(s, 5)), z: F32(part(s, 1)) });
        "axis_angle" 9: |s| Quaternion::axis_angle(r(s), part(s, 7)); "from_two_vectors" 9: |s| Quaternion::from_two_vectors(r(s), t(s)); "from_two_vectors i16" 9: |s| Quaternion::from_two_vectors(i(s), i(s + 1));
        "from_two_vectors opposite" 9: |s| Quaternion::from_two_vectors(r(s), r(s) * -2.0); "from_two_vectors same" 9: |s| Quaternion::from_two_vectors(r(s), r(s));
        "to_euler" 9: |s| q(s).to_euler(); "q from" 4: |s| (Quaternion::from(r(s)), Quaternion::IDENTITY, Quaternion::default());
    }
    fn x(s: usize) -> [f32; 5] { [part(s, 0), part(s, 1), part(s, 2), part(s, 3), part(s, 4) + s as f32] }
    fn y(s: usize) -> Vec<F32> { x(s).iter().take(s % 4 + 1).map(|v| F32(*v)).collect() }
    calls! { v;
        "mean" 9: |s| x(s).into_iter().mean(); "variance" 9: |s| (&x(s)[..]).variance(); "stddev" 9: |s| (&x(s)[..]).stddev(); "mean F32" 6: |s| y(s).into_iter().map(|v| v.0).mean(); "stddev F32" 6: |s| (&y(s)[..]).stddev();
        "trim" 6: |s| (&x(s)[..]).trim().take(9).collect::<Vec<_>>(); "trim_at" 9: |s| (&x(s)[..]).trim_at(0.5 + s as f32 / 8.0).take(9).collect::<Vec<_>>();
    }
    vectors!(v, Vector2d<f32>, f32, |s, o| Vector2d { x: part(s, o), y: part(s, o + 1) }, |s| part(s, 3));
    vectors!(v, Vector2d<i16>, i16, |s, o| Vector2d { x: int(s, o) as i16, y: int(s, o + 1) as i16 }, |s| int(s, 3) as i16);
    vectors!(v, Vector3d<f32>, f32, |s, o| Vector3d { x: part(s, o), y: part(s, o + 1), z: part(s, o + 2) }, |s| part(s, 3));
    vectors!(v, Vector3d<F32>, F32, |s, o| Vector3d { x: F32(part(s, o)), y: F32(part(s, o + 1)), z: F32(part(s, o + 2)) }, |s| F32(part(s, 3)));
    calls! { v;
        "k * v" 6: |s| part(s, 3) * r(s); "normalized" 6: |s| r(s).normalized(); "normalized F32" 6: |s| Vector2d { x: F32(part(s, 0)), y: F32(part(s, 1)) }.normalized();
        "perpendicular_dot" 6: |s| Vector2d { x: part(s, 0), y: part(s, 1) }.perpendicular_dot(Vector2d { x: part(s, 3), y: part(s, 2) });
        "cross of i8" 6: |s| Vector3d { x: int(s, 0) as i8, y: 2, z: 3 } * Vector3d { x: 1i8, y: int(s, 3) as i8, z: -2 };
    }
    v
}
trait Acos {
    fn acos_(self) -> f32;
}
impl Acos for f32 {
    fn acos_(self) -> f32 {
        F32Ext::acos(self)
    }
}
impl Call {
    fn run(&self) -> Out {
        sweep::guard(|| (self.f)(self.set)).unwrap_or_else(|| vec![0xDEAD, 0xDEAD])
    }
    fn text(&self) -> String {
        format!("{} (arguments no. {})", self.name, self.set)
    }
}
/// A number for a result; equal ones for equal results
fn hash(o: &Out) -> u64 {
    o.iter().fold(0xCBF2_9CE4_8422_2325 ^ o.len() as u64, |h, b| (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(29))
}
/// The calls, in this order, in a process of their own
fn fresh(word: &[usize]) -> Vec<u64> {
    let list = word.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",");
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["--child", &list]).output().unwrap_or_else(|e| harness::die(&format!("{e}")));
    let r: Vec<u64> = String::from_utf8_lossy(&o.stdout).split_whitespace().filter_map(|s| s.parse().ok()).collect();
    if r.len() != word.len() {
        harness::die(&format!("a process with the calls {list} gives {o:?}"));
    }
    r
}

fn main() {
    let args = Args::get();
    sweep::quiet();
    let calls = calls();
    if let Some(list) = args.opt("child") {
        for i in list.split(',') {
            println!("{}", hash(&calls[i.parse::<usize>().unwrap()].run()));
        }
        return;
    }
    let mut rep = Report::default();
    let (seed, deep) = (args.seed(), args.thorough());
    let n = calls.len();
    let words: Vec<Vec<usize>> = rows::load(&args.req("rows")).iter().map(|r| r.ints("word").iter().map(|i| *i as usize - 1).collect()).collect();
    // each call, first thing in a process
    let table: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    sweep::sweep(n as u64, |i| { table[i as usize].store(fresh(&[i as usize])[0], Relaxed); true }, |_, _| String::new());
    let table: Vec<u64> = table.into_iter().map(|t| t.into_inner()).collect();
    rep.count("calls", n as u64);
    let differs = |i: usize, when: &str| format!("{} gives another result {when} than in a fresh process", calls[i].text());
    // words, in fresh processes: neighbouring arguments, and other calls
    let per = if deep { 40 } else { 2 };
    let pair = |j: u64| {
        let (i, k) = ((j / per) as usize % n, j % per);
        let mut g = Rng::new(seed, j);
        (i, match k {
            0 => (i + 1 + j as usize % 3) % n,
            _ => g.below(n as u64) as usize,
        })
    };
    let process = |j: u64| {
        let (a, b) = pair(j / words.len() as u64);
        let w = &words[(j % words.len() as u64) as usize];
        let ids: Vec<usize> = w.iter().map(|c| if *c == 0 { a } else { b }).collect();
        let r = fresh(&ids);
        ids.iter().zip(&r).position(|(i, h)| table[*i] != *h).map(|at| (ids, at))
    };
    let (tried, bad) = sweep::sweep(n as u64 * per * words.len() as u64, |j| process(j).is_none(), |j, _| {
        let Some((ids, at)) = process(j) else { return "a difference that is not there any more, in a process of its own".into() };
        let before = ids[..at].iter().map(|i| calls[*i].text()).collect::<Vec<_>>().join(", ");
        differs(ids[at], &format!("after {before}"))
    });
    rep.count("processes", tried + n as u64);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    // words of all pairs, in this process
    let order = |rep: &mut Report, ids: &mut dyn Iterator<Item = usize>, when: &dyn Fn(Option<usize>) -> String| {
        let mut last = None;
        for i in ids {
            rep.count("sequence", 1);
            if hash(&calls[i].run()) != table[i] {
                rep.violation(differs(i, &when(last)));
                if rep.nviol > 20 {
                    return;
                }
            }
            last = Some(i);
        }
    };
    let after = |last: Option<usize>| last.map_or("early".to_string(), |i| format!("after {}", calls[i].text()));
    order(&mut rep, &mut (0..n).rev(), &after);
    order(&mut rep, &mut (0..n), &after);
    let step = if deep { 1 } else { 7 };
    // calls of the same function are neighbours
    let far = (30..n).step_by(step).map(|d| (d + seed as usize % step) % n);
    for d in (0..30).chain(far) {
        if rep.nviol > 0 {
            break;
        }
        for w in &words {
            order(&mut rep, &mut (0..n).flat_map(|a| w.iter().map(move |c| if *c == 0 { a } else { (a + d) % n })), &after);
        }
    }
    // threads
    let stop = AtomicBool::new(false);
    let total = AtomicU64::new(0);
    let found: Mutex<Vec<String>> = Mutex::new(vec![]);
    let rounds: u64 = if deep { 40_000_000 } else { 2_000_000 };
    std::thread::scope(|s| {
        for t in 0..sweep::threads() as u64 {
            let (stop, total, found, calls, table, differs) = (&stop, &total, &found, &calls, &table, &differs);
            s.spawn(move || {
                let mut g = Rng::new(seed, 70_000 + t);
                let mut near = 0;
                for j in 0..rounds {
                    // neighbouring calls, the same ones in all threads for a while
                    if j % 256 == 0 {
                        near = (Rng::new(seed, 80_000 + total.load(Relaxed) / 4096).below(n as u64)) as usize;
                        total.fetch_add(256, Relaxed);
                        if stop.load(Relaxed) {
                            return;
                        }
                    }
                    let i = if t % 4 == 3 { g.below(n as u64) as usize } else { (near + g.below(3) as usize) % n };
                    if hash(&calls[i].run()) != table[i] {
                        found.lock().unwrap().push(differs(i, "while other threads make calls"));
                        stop.store(true, Relaxed);
                        return;
                    }
                }
            });
        }
    });
    rep.count("threaded", total.load(Relaxed));
    found.into_inner().unwrap().into_iter().for_each(|v| rep.violation(v));
    // a history of threads
    let events: u64 = args.req("events").parse().unwrap();
    let log: Mutex<String> = Mutex::new(String::new());
    let nt = 4;
    writeln!(log.lock().unwrap(), "{{\"k\":\"threads\",\"n\":{nt}}}").unwrap();
    std::thread::scope(|s| {
        for t in 1..=nt {
            let (log, calls) = (&log, &calls);
            s.spawn(move || {
                let mut g = Rng::new(seed, 90_000 + t);
                for j in 0..events / nt / 2 {
                    let i = if j % 3 == 0 { g.below(n as u64) as usize } else { ((j / 8 * 7) as usize + g.below(2) as usize) % n };
                    writeln!(log.lock().unwrap(), "{{\"k\":\"begin\",\"t\":{t},\"c\":{}}}", i + 1).unwrap();
                    let r = hash(&calls[i].run());
                    let words = [r >> 48, r >> 32 & 0xffff, r >> 16 & 0xffff, r & 0xffff].map(|x| x.to_string()).join(",");
                    writeln!(log.lock().unwrap(), "{{\"k\":\"end\",\"t\":{t},\"of\":{},\"r\":[{words}]}}", harness::out::quote(&calls[i].text())).unwrap();
                }
            });
        }
    });
    std::fs::write(args.req("trace"), log.into_inner().unwrap()).unwrap_or_else(|e| harness::die(&format!("{e}")));
    rep.finish()
}
