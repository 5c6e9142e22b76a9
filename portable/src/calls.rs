//! The functions, called on the inputs.
use core::fmt::{self, Write};
use core::str::FromStr;
use micromath::{
    num_traits::{Inv, Num, One, Zero},
    statistics::{Mean, StdDev, Trim, Variance},
    vector::{Component, Vector, Vector2d, Vector3d},
    F32Ext, Quaternion, F32,
};

/// A digest of results, in which all NaN are the same.
pub struct Digest(u64);
impl Digest {
    pub fn new() -> Digest {
        Digest(0x1234_5678_9abc_def1)
    }
    fn word(&mut self, w: u64) {
        self.0 = (self.0 ^ w).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        self.0 ^= self.0 >> 29;
    }
    pub fn put<T: Put>(&mut self, x: T) {
        x.put(self)
    }
    pub fn end(self) -> u32 {
        (self.0 >> 33) as u32
    }
}
impl Write for Digest {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.bytes() {
            self.word(b.into())
        }
        Ok(())
    }
}

pub trait Put {
    fn put(self, d: &mut Digest);
}
impl Put for f32 {
    fn put(self, d: &mut Digest) {
        d.word(if self != self { 0x7fc0_0000 } else { self.to_bits() as u64 })
    }
}
impl Put for F32 {
    fn put(self, d: &mut Digest) {
        self.0.put(d)
    }
}
macro_rules! words {
    ($($t:ty)*) => {$(
        impl Put for $t {
            fn put(self, d: &mut Digest) {
                d.word(self as i64 as u64)
            }
        }
    )*};
}
words!(bool i8 i16 i32 u8 u16 u32 usize core::cmp::Ordering);
impl<T: Put> Put for Option<T> {
    fn put(self, d: &mut Digest) {
        match self {
            None => d.word(77),
            Some(x) => {
                d.word(78);
                x.put(d)
            }
        }
    }
}
impl<T: Put, E> Put for Result<T, E> {
    fn put(self, d: &mut Digest) {
        self.ok().put(d)
    }
}
impl<T: Put, const N: usize> Put for [T; N] {
    fn put(self, d: &mut Digest) {
        for x in self {
            x.put(d)
        }
    }
}
impl<A: Put, B: Put> Put for (A, B) {
    fn put(self, d: &mut Digest) {
        self.0.put(d);
        self.1.put(d)
    }
}
impl<A: Put, B: Put, C: Put> Put for (A, B, C) {
    fn put(self, d: &mut Digest) {
        self.0.put(d);
        self.1.put(d);
        self.2.put(d)
    }
}
impl<C: Put + Component> Put for Vector2d<C> {
    fn put(self, d: &mut Digest) {
        (self.x, self.y).put(d)
    }
}
impl<C: Put + Component> Put for Vector3d<C> {
    fn put(self, d: &mut Digest) {
        (self.x, self.y, self.z).put(d)
    }
}
impl Put for Quaternion {
    fn put(self, d: &mut Digest) {
        self.to_array().put(d)
    }
}

/// Writes a line for each function: its name and digests of groups of results.
pub struct Record<'a> {
    out: &'a mut dyn Write,
    shard: usize,
    shards: usize,
    ops: usize,
}
impl<'a> Record<'a> {
    pub fn new(out: &'a mut dyn Write, shard: usize, shards: usize) -> Record<'a> {
        Record { out, shard, shards, ops: 0 }
    }
    fn op(&mut self, name: &str, f: impl FnOnce(&mut Record<'a>)) {
        self.ops += 1;
        if self.ops % self.shards == self.shard {
            let _ = write!(self.out, "{name}\t");
            f(self);
            let _ = writeln!(self.out);
        }
    }
    fn group(&mut self, f: impl FnOnce(&mut Digest)) {
        let mut d = Digest::new();
        f(&mut d);
        let _ = write!(self.out, "{} ", d.end());
    }
}

fn row(i: usize) -> f32 {
    f32::from_bits(crate::rows(i).unwrap())
}
/// the first rows are tried in pairs
fn pairs() -> usize {
    env!("PAIRS").bytes().fold(0, |n, b| 10 * n + (b - b'0') as usize)
}
fn rows() -> usize {
    crate::ROWS.len() / 4
}

macro_rules! unary {
    ($($name:literal: $f:expr;)*) => {
        fn of_one(r: &mut Record<'_>) {
            $(r.op($name, |r| {
                let f = $f;
                for i in (0..rows()).step_by(16) {
                    r.group(|d| (i..rows().min(i + 16)).for_each(|k| d.put(f(row(k)))));
                }
            });)*
        }
        /// the functions on every 2^stride-th number with given sign and exponent
        #[cfg(not(miri))]
        pub fn unary() -> Vec<(&'static str, fn(u32, u32) -> u32)> {
            vec![$(($name, |block, stride| {
                let f = $f;
                let mut d = Digest::new();
                for k in 0..1u32 << (23 - stride) {
                    let low = (k ^ block).wrapping_mul(0x9e37_79b9) >> 9;
                    d.put(f(f32::from_bits(block << 23 | k << stride | low & ((1 << stride) - 1))));
                }
                d.end()
            })),*]
        }
    };
}
unary! {
    "abs": |x: f32| F32Ext::abs(x);
    "acos": |x: f32| F32Ext::acos(x);
    "asin": |x: f32| F32Ext::asin(x);
    "atan": |x: f32| F32Ext::atan(x);
    "atan_norm": |x: f32| F32Ext::atan_norm(x);
    "ceil": |x: f32| F32Ext::ceil(x);
    "cos": |x: f32| F32Ext::cos(x);
    "cosh": |x: f32| F32(x).cosh();
    "exp": |x: f32| F32Ext::exp(x);
    "floor": |x: f32| F32Ext::floor(x);
    "fract": |x: f32| F32Ext::fract(x);
    "inv": |x: f32| F32Ext::inv(x);
    "invsqrt": |x: f32| F32Ext::invsqrt(x);
    "ln": |x: f32| F32Ext::ln(x);
    "log2": |x: f32| F32Ext::log2(x);
    "log10": |x: f32| F32Ext::log10(x);
    "recip": |x: f32| F32Ext::recip(x);
    "round": |x: f32| F32Ext::round(x);
    "signum": |x: f32| F32Ext::signum(x);
    "sin": |x: f32| F32Ext::sin(x);
    "sin_cos": |x: f32| F32Ext::sin_cos(x);
    "sqrt": |x: f32| F32Ext::sqrt(x);
    "tan": |x: f32| F32Ext::tan(x);
    "trunc": |x: f32| F32Ext::trunc(x);
    "neg": |x: f32| -F32(x);
    "F32::abs": |x: f32| F32(x).abs();
    "F32::cos": |x: f32| F32(x).cos();
    "F32::exp": |x: f32| F32(x).exp();
    "F32::floor": |x: f32| F32(x).floor();
    "F32::ln": |x: f32| F32(x).ln();
    "F32::sqrt": |x: f32| F32(x).sqrt();
    "F32::round": |x: f32| F32(x).round();
    "bits": |x: f32| (F32(x).to_bits() == x.to_bits(), F32::from_bits(x.to_bits()));
    "classes": |x: f32| [F32(x).is_nan(), F32(x).is_infinite(), F32(x).is_finite(), x == x && F32(x).is_sign_positive(), x == x && F32(x).is_sign_negative()];
    "numbers": |x: f32| ([F32(x).is_zero(), F32(x).is_one()], Inv::inv(F32(x)));
    "powi 3": |x: f32| F32Ext::powi(x, 3);
    "powi -2": |x: f32| F32Ext::powi(x, -2);
    "powf 0.5": |x: f32| F32Ext::powf(x, 0.5);
    "powf -3": |x: f32| F32Ext::powf(x, -3.0);
}

macro_rules! binary {
    ($of:ident $step:literal; $($name:literal: $f:expr;)*) => {
        fn $of(r: &mut Record<'_>) {
            $(r.op($name, |r| {
                let f = $f;
                for i in 0..pairs() {
                    r.group(|d| (i % $step..pairs()).step_by($step).for_each(|k| d.put(f(row(i), row(k)))));
                }
            });)*
        }
    };
}
binary! { of_two 1;
    "atan2": |x: f32, y: f32| F32Ext::atan2(x, y);
    "atan2_norm": |x: f32, y: f32| F32Ext::atan2_norm(x, y);
    "copysign": |x: f32, y: f32| F32Ext::copysign(x, if y == y { y } else { 1.0 });
    "div_euclid": |x: f32, y: f32| F32Ext::div_euclid(x, y);
    "rem_euclid": |x: f32, y: f32| F32Ext::rem_euclid(x, y);
    "hypot": |x: f32, y: f32| F32Ext::hypot(x, y);
    "log": |x: f32, y: f32| F32Ext::log(x, y);
    "powf": |x: f32, y: f32| F32Ext::powf(x, y);
    "powi": |x: f32, y: f32| F32Ext::powi(x, y.to_bits() as i32 >> 20);
    "mul_add": |x: f32, y: f32| (F32Ext::mul_add(x, y, 1.5), F32Ext::mul_add(x, 0.1, y));
    "operators": |x: f32, y: f32| [F32(x) + F32(y), F32(x) - y, x * F32(y), F32(x) / F32(y)];
    "remainder": |x: f32, y: f32| F32(x) % F32(y);
    "comparisons": |x: f32, y: f32| (F32(x) == F32(y), F32(x).partial_cmp(&F32(y)), x < F32(y));
    "sums": |x: f32, y: f32| ([F32(x), F32(y), F32(0.1)].iter().copied().sum::<F32>(), [F32(x), F32(y)].iter().copied().product::<F32>());
}
binary! { compound 4;
    "vectors of 2": |x: f32, y: f32| { let (a, b) = (Vector2d { x, y }, Vector2d { x: y, y: 0.3 }); ((a + b, a - b, a * 1.5), (a * b, a.dot(b), a.perpendicular_dot(b)), (a.distance(b), a.magnitude(), a.normalized())) };
    "vectors of 3": |x: f32, y: f32| { let (a, b) = (Vector3d { x, y, z: 0.7 }, Vector3d { x: 0.3, y: x, z: y }); ((a + b, a - b, 1.5 * a), (a * b, a.dot(b), a / 3.0), (a.distance(b), a.magnitude(), a.normalized())) };
    "quaternions": |x: f32, y: f32| { let (p, q) = (Quaternion::new(x, y, 0.5, -2.0), Quaternion::new(0.25, y, x, 1.0)); ((p + q, p - q, p * q), (p.inv(), p.conj(), p.dot(q)), (p.norm(), p.magnitude(), p.normalize())) };
    "attitudes": |x: f32, y: f32| { let q = Quaternion::new(x, y, 0.5, -0.5); let v = Vector3d { x: 0.1, y: 2.0, z: y }; (q.to_euler(), q.rotate(v), q * v) };
    "rotations": |x: f32, y: f32| { let v = Vector3d { x: 0.6, y: 0.0, z: 0.8 }; (Quaternion::axis_angle(v, x), Quaternion::from_two_vectors(v, Vector3d { x, y, z: 0.25 })) };
}

/// vectors of small numbers
fn whole<C: Component + Put + core::iter::Sum + Into<f32>>(d: &mut Digest, n: impl Fn(i8) -> C)
where
    f32: Put,
{
    for i in 0..24i8 {
        let c = |k: i8| n((i * k + k) % 5);
        let (a, b) = (Vector2d { x: c(5), y: c(3) }, Vector2d { x: c(2), y: c(1) });
        d.put((a + b, a * c(3), a.dot(b)));
        d.put((a.distance(b), a.magnitude(), a.magnitude_sq()));
        d.put(([a.get(0), a.get(1), a.get(2), a.get(256), a.get(65536), a.get(usize::MAX)], a[1], a / n(3)));
        d.put([a, b, a].iter().sum::<Vector2d<C>>());
        let (a, b) = (Vector3d { x: c(1), y: c(4), z: c(2) }, Vector3d { x: c(2), y: c(1), z: c(3) });
        d.put((a + b, a * c(3), a.dot(b)));
        d.put((a.distance(b), a.magnitude(), a.magnitude_sq()));
        d.put(([a.get(0), a.get(1), a.get(2), a.get(256), a.get(65536), a.get(usize::MAX)], a[2], a / n(3)));
        d.put([a, b, a].iter().copied().sum::<Vector3d<C>>());
        d.put(Vector3d::from_iter(a.iter().map(|x| x + n(1))));
    }
}
use core::iter::FromIterator;

fn signed<C: Component + Put>(d: &mut Digest, n: impl Fn(i8) -> C) {
    for i in 0..24i8 {
        let c = |k: i8| n((i * k + k) % 5 - 2);
        let (a, b) = (Vector3d { x: c(1), y: c(4), z: c(2) }, Vector3d { x: c(2), y: c(1), z: c(3) });
        d.put((a.cross(b), a * b, a - b));
        let (a, b) = (Vector2d { x: c(5), y: c(3) }, Vector2d { x: c(2), y: c(1) });
        d.put((a.cross(b), a.perpendicular_dot(b), a - b));
    }
}

fn of_vectors(r: &mut Record<'_>) {
    macro_rules! each {
        ($run:ident, $what:literal: $($t:ident $n:expr;)*) => {$(r.op(concat!($what, stringify!($t)), |r| r.group(|d| $run::<$t>(d, $n)));)*};
    }
    each!(whole, "vectors of ": i8 |x| x; i16 |x| x.into(); u8 |x| x as u8; u16 |x| x as u16; f32 |x| x.into(); F32 |x| x.into(););
    each!(signed, "products of ": i8 |x| x; i16 |x| x.into(); i32 |x| x.into(); f32 |x| x.into(); F32 |x| x.into(););
    r.op("products of large vectors", |r| {
        r.group(|d| {
            let v = Vector3d { x: 46_340, y: -46_340, z: 1 };
            d.put((v.cross(Vector3d { x: 1, y: 0, z: 46_340 }), v.dot(Vector3d { x: 46_340, y: 1, z: -1 }), v.x));
            let v = Vector2d { x: 65_535u32, y: 2 };
            d.put((v.dot(Vector2d { x: 65_535, y: 0 }), v * 60_000, [v, v].iter().sum::<Vector2d<u32>>()));
            d.put(Vector3d::<f32>::from(Vector3d { x: u16::MAX, y: 1, z: 32_768 }));
            d.put(Vector2d::<f32>::from(Vector2d { x: i16::MIN, y: i16::MAX }));
        })
    });
}

fn sample<T: Copy + Put + Into<f32>>(d: &mut Digest, x: &[T])
where
    f32: From<T>,
{
    d.put((x.iter().map(|x| (*x).into()).mean(), x.variance(), x.stddev()));
    d.put((x.trim().count(), x.trim().map(f32::from).mean(), x.trim_at(1.25).next()));
}

fn of_samples(r: &mut Record<'_>) {
    macro_rules! each {
        ($($t:ident $n:expr;)*) => {$(r.op(concat!("statistics of ", stringify!($t)), |r| {
            let f: fn(u32) -> $t = $n;
            let mut x = [f(0); 40];
            for len in [0, 1, 2, 3, 7, 40] {
                r.group(|d| for start in 0..12u32 {
                    for (i, x) in x.iter_mut().enumerate() {
                        *x = f((start * 64 + i as u32).wrapping_mul(0x9e37_79b9) >> 8)
                    }
                    sample(d, &x[..len])
                })
            }
        });)*};
    }
    each! { i8 |n| n as i8; u8 |n| n as u8; i16 |n| n as i16; u16 |n| n as u16; f32 |n| row(n as usize % rows()); F32 |n| F32(f32::from_bits(0x3f00_0000 ^ n)); }
    // more samples than 16 bits count
    static MANY: [u8; 66_000] = {
        let mut x = [1; 66_000];
        x[65_999] = 200;
        x[7] = 0;
        x
    };
    r.op("statistics of many", |r| {
        r.group(|d| d.put(MANY.iter().map(|x| f32::from(*x)).mean()));
    });
    r.op("trimming of many", |r| {
        r.group(|d| d.put((&MANY[..]).trim_at(2.0).next()));
    });
}

fn of_text(r: &mut Record<'_>) {
    r.op("text", |r| {
        for i in (0..pairs()).step_by(2) {
            r.group(|d| {
                let x = F32(row(i));
                let _ = write!(d, "{x} {x:e} {x:E} {x:?} {x:+09.3} {x:<12.1e}");
            })
        }
    });
    r.op("numbers read", |r| {
        r.group(|d| {
            for s in ["1", "-2.5", "1e10", "3.4028236e38", "1e-46", "7e-46", "16777217", "0.1", "inf", "nan", "+.5e-3", "", "-", "1e", "12x"] {
                d.put((F32::from_str(s), F32::from_str_radix(s, 10)));
            }
            for (s, radix) in [("ff", 16), ("-1010.1", 2), ("zz", 36), ("7.4", 8)] {
                d.put(F32::from_str_radix(s, radix));
            }
            d.put([F32::zero(), F32::one(), F32::MAX, F32::MIN_POSITIVE, F32::EPSILON]);
        })
    });
}

pub fn all(r: &mut Record<'_>) {
    of_one(r);
    of_two(r);
    compound(r);
    of_vectors(r);
    of_samples(r);
    of_text(r);
}
