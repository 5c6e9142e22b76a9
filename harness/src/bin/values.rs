//! C38: equality, copies, defaults and Debug texts of vectors, quaternions and F32; histories for spec/ValuesTrace.tla.
use harness::delicate::num;
use harness::{out::Report, rows, sweep, Args, Rng};
use micromath::vector::{Component, Vector2d, Vector3d};
use micromath::{Quaternion, F32};
use std::fmt::{Debug, Write};
use std::ops::*;

/// A component of a user's type: compared by its key only
#[derive(Clone, Copy, Default)]
struct Key(i32, bool);
impl Debug for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}{}", self.0, if self.1 { "'" } else { "" })
    }
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.0 == o.0
    }
}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<std::cmp::Ordering> {
        self.0.partial_cmp(&o.0)
    }
}
macro_rules! ops {
    ($($t:ident $f:ident)*) => {$(impl $t for Key {
        type Output = Key;
        fn $f(self, o: Key) -> Key {
            Key(self.0 ^ o.0, self.1)
        }
    })*};
}
ops!(Add add Sub sub Mul mul Div div);
impl Component for Key {}

trait Num: Copy + Debug + Default + PartialEq + Send + Sync + 'static {
    const COMP: &'static str;
    /// Any value
    fn any(g: &mut Rng) -> Self;
    /// One that is equal, or nearly so
    fn near(self, g: &mut Rng) -> Self;
    fn show(self) -> String;
    fn same(self, o: Self) -> bool {
        self.show() == o.show()
    }
}
fn float(g: &mut Rng) -> f32 {
    f32::from_bits(match g.below(4) {
        0 => g.pick(&[0u32, 1, 2, 0x3f80_0000, 0x7f7f_ffff, 0x7f80_0000, 0x7f80_0001, 0x7fc0_0000, 0x4b80_0000]) | (g.u32() & 1) << 31,
        1 => (g.range(-30, 30) as f32).to_bits(),
        _ => g.u32(),
    })
}
fn near(x: f32, g: &mut Rng) -> f32 {
    let b = x.to_bits();
    f32::from_bits(match g.below(4) {
        0 => b ^ 1 << 31,
        1 => b ^ 1 << g.below(32),
        2 => b.wrapping_add(1),
        _ => b,
    })
}
impl Num for f32 {
    const COMP: &'static str = "float";
    fn any(g: &mut Rng) -> f32 {
        float(g)
    }
    fn near(self, g: &mut Rng) -> f32 {
        near(self, g)
    }
    fn show(self) -> String {
        num(self)
    }
    fn same(self, o: f32) -> bool {
        harness::same_bits(self, o)
    }
}
impl Num for F32 {
    const COMP: &'static str = "float";
    fn any(g: &mut Rng) -> F32 {
        F32(float(g))
    }
    fn near(self, g: &mut Rng) -> F32 {
        F32(near(self.0, g))
    }
    fn show(self) -> String {
        num(self.0)
    }
    fn same(self, o: F32) -> bool {
        harness::same_bits(self.0, o.0)
    }
}
macro_rules! ints {
    ($($t:ident)*) => {$(impl Num for $t {
        const COMP: &'static str = "int";
        fn any(g: &mut Rng) -> $t {
            match g.below(3) {
                0 => g.pick(&[0, 1, $t::MAX, $t::MIN, $t::MAX / 2]),
                1 => g.below(100) as $t,
                _ => g.u32() as $t,
            }
        }
        fn near(self, g: &mut Rng) -> $t {
            match g.below(3) {
                0 => self ^ (1 as $t) << g.below($t::BITS as u64),
                1 => (0 as $t).wrapping_sub(self),
                _ => self,
            }
        }
        fn show(self) -> String {
            // magnitudes fit 31 bits: the lowest number is halved, and large unsigned ones lose a bit to the sign
            let v = self as i64;
            let (s, m) = if v < 0 { (1, -v) } else { (0, v) };
            if m >= 1 << 31 { format!("{{\"s\":{},\"m\":{}}}", s + 2, m - (1 << 31)) } else { format!("{{\"s\":{s},\"m\":{m}}}") }
        }
    })*};
}
ints!(i8 i16 i32 u8 u16 u32);
impl Num for Key {
    const COMP: &'static str = "key";
    fn any(g: &mut Rng) -> Key {
        Key(g.below(1000) as i32, g.below(2) == 1)
    }
    fn near(self, g: &mut Rng) -> Key {
        match g.below(3) {
            0 => Key(self.0 ^ 1 << g.below(9), self.1),
            1 => Key(self.0, !self.1),
            _ => self,
        }
    }
    fn show(self) -> String {
        format!("{{\"s\":{},\"m\":{}}}", self.1 as u8, self.0)
    }
}

/// What is compared: a value with N components
trait Value<C: Num, const N: usize>: Copy + Debug + Default + PartialEq + Send + Sync + 'static {
    const KIND: &'static str;
    fn make(c: [C; N], how: u64) -> Self;
    fn comps(&self) -> [C; N];
    fn set(&mut self, i: usize, c: C);
    /// the text of the derived Debug of a type with that name and these fields
    fn like(c: [C; N], options: usize) -> String;
}
const OPTIONS: usize = 5;
macro_rules! debug {
    ($x:expr, $o:expr) => {
        match $o {
            0 => format!("{:?}", $x),
            1 => format!("{:#?}", $x),
            2 => format!("{:.2?}", $x),
            3 => format!("{:+06?}", $x),
            _ => format!("{:8.1?}", $x),
        }
    };
}
mod reference {
    #[derive(Debug)]
    #[allow(dead_code)]
    pub struct Vector2d<C> {
        pub x: C,
        pub y: C,
    }
    #[derive(Debug)]
    #[allow(dead_code)]
    pub struct Vector3d<C> {
        pub x: C,
        pub y: C,
        pub z: C,
    }
    #[derive(Debug)]
    #[allow(dead_code)]
    pub struct Quaternion(pub f32, pub f32, pub f32, pub f32);
    #[derive(Debug)]
    #[allow(dead_code)]
    pub struct F32(pub f32);
}
impl<C: Num + Component> Value<C, 2> for Vector2d<C> {
    const KIND: &'static str = "Vector2d";
    fn make(c: [C; 2], how: u64) -> Self {
        match how % 4 {
            0 => Vector2d { x: c[0], y: c[1] },
            1 => c.into(),
            2 => (c[0], c[1]).into(),
            _ => c.into_iter().collect(),
        }
    }
    fn comps(&self) -> [C; 2] {
        [self.x, self.y]
    }
    fn set(&mut self, i: usize, c: C) {
        *[&mut self.x, &mut self.y][i] = c;
    }
    fn like(c: [C; 2], o: usize) -> String {
        debug!(reference::Vector2d { x: c[0], y: c[1] }, o)
    }
}
impl<C: Num + Component> Value<C, 3> for Vector3d<C> {
    const KIND: &'static str = "Vector3d";
    fn make(c: [C; 3], how: u64) -> Self {
        match how % 4 {
            0 => Vector3d { x: c[0], y: c[1], z: c[2] },
            1 => c.into(),
            2 => (c[0], c[1], c[2]).into(),
            _ => c.into_iter().collect(),
        }
    }
    fn comps(&self) -> [C; 3] {
        [self.x, self.y, self.z]
    }
    fn set(&mut self, i: usize, c: C) {
        *[&mut self.x, &mut self.y, &mut self.z][i] = c;
    }
    fn like(c: [C; 3], o: usize) -> String {
        debug!(reference::Vector3d { x: c[0], y: c[1], z: c[2] }, o)
    }
}
impl Value<f32, 4> for Quaternion {
    const KIND: &'static str = "Quaternion";
    fn make(c: [f32; 4], how: u64) -> Self {
        match how % 3 {
            0 => Quaternion::new(c[0], c[1], c[2], c[3]),
            1 => c.into(),
            _ => (c[0], c[1], c[2], c[3]).into(),
        }
    }
    fn comps(&self) -> [f32; 4] {
        [self.w(), self.x(), self.y(), self.z()]
    }
    fn set(&mut self, i: usize, c: f32) {
        let mut a = self.to_array();
        a[i] = c;
        *self = a.into();
    }
    fn like(c: [f32; 4], o: usize) -> String {
        debug!(reference::Quaternion(c[0], c[1], c[2], c[3]), o)
    }
}
impl Value<f32, 1> for F32 {
    const KIND: &'static str = "F32";
    fn make(c: [f32; 1], how: u64) -> Self {
        match how % 3 {
            0 => F32(c[0]),
            1 => c[0].into(),
            _ => F32::from_bits(c[0].to_bits()),
        }
    }
    fn comps(&self) -> [f32; 1] {
        [self.0]
    }
    fn set(&mut self, _: usize, c: f32) {
        self.0 = c;
    }
    fn like(c: [f32; 1], o: usize) -> String {
        debug!(reference::F32(c[0]), o)
    }
}

fn list<C: Num, const N: usize>(c: [C; N]) -> String {
    format!("[{}]", c.iter().map(|c| c.show()).collect::<Vec<_>>().join(","))
}

struct Ctx {
    seed: u64,
    thorough: bool,
    events: u64,
    table: Vec<(f32, f32, bool)>,
}

fn kind<C: Num, const N: usize, V: Value<C, N>>(rep: &mut Report, cx: &Ctx, out: &mut String, of: u64) {
    let name = format!("{} of {}", V::KIND, std::any::type_name::<C>().rsplit(':').next().unwrap());
    // pairs that differ in some components, or in none
    let pair = |j: u64| {
        let mut g = Rng::new(cx.seed ^ (j << 20), 3800 + of);
        let a: [C; N] = std::array::from_fn(|_| C::any(&mut g));
        let mut b = a;
        match g.below(8) {
            0 => (),
            1 => b = std::array::from_fn(|i| b[i].near(&mut g)),
            2 => b = std::array::from_fn(|_| C::any(&mut g)),
            3 => b.rotate_left(g.below(N as u64) as usize),
            _ => {
                let i = g.below(N as u64) as usize;
                b[i] = b[i].near(&mut g);
            }
        }
        (a, b, g.next())
    };
    let right = |a: [C; N], b: [C; N], how: u64| {
        let (x, y) = (V::make(a, how), V::make(b, how >> 8));
        let want = (0..N).all(|i| a[i] == b[i]);
        let copy = x;
        #[allow(clippy::clone_on_copy)]
        let clone = x.clone();
        let mut third = y;
        third.clone_from(&x);
        let keeps = |v: V| v.comps().iter().zip(&a).all(|(c, d)| c.same(*d));
        #[allow(clippy::nonminimal_bool)]
        let ok = (x == y) == want && (y == x) == want && (x != y) == !want && (y != x) == !want && keeps(copy) && keeps(clone) && keeps(third) && keeps(x);
        ok
    };
    let n = if cx.thorough { 1u64 << 27 } else { 1 << 21 };
    let (tried, bad) = sweep::sweep(
        n,
        |j| {
            let (a, b, how) = pair(j);
            right(a, b, how)
        },
        |j, p| {
            let (a, b, how) = pair(j);
            let (x, y) = (V::make(a, how), V::make(b, how >> 8));
            if p {
                format!("{name}: comparing or copying {a:?}, {b:?} panics")
            } else {
                #[allow(clippy::clone_on_copy)]
                let clone = x.clone();
                let mut third = y;
                third.clone_from(&x);
                format!("{name}: {a:?} and {b:?}: == gives {} and {}, != gives {}, a clone has {:?}, clone_from gives {:?}", x == y, y == x, x != y, clone.comps(), third.comps())
            }
        },
    );
    rep.count("compared", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    let (tried, bad) = sweep::sweep(
        n >> 6,
        |j| {
            let (a, _, how) = pair(j);
            (0..OPTIONS).all(|o| debug!(V::make(a, how), o) == V::like(a, o))
        },
        |j, p| {
            let (a, _, how) = pair(j);
            if p {
                return format!("{name}: the Debug text of {a:?} panics");
            }
            let o = (0..OPTIONS).find(|o| debug!(V::make(a, how), *o) != V::like(a, *o)).unwrap_or(0);
            format!("{name}: the Debug text of {a:?} is {:?} instead of {:?}", debug!(V::make(a, how), o), V::like(a, o))
        },
    );
    rep.count("debug texts", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    // histories
    let mut j = 0;
    let mut left = cx.events;
    let (mut regs, mut shadow): ([V; 4], u64) = ([V::default(); 4], 0);
    while left > 0 {
        j += 1;
        left -= 1;
        let mut g = Rng::new(cx.seed ^ (j << 24), 3900 + of);
        if j % 60 == 1 {
            regs = [V::default(); 4];
            writeln!(out, "{{\"op\":\"fresh\",\"kind\":\"{}\",\"comp\":\"{}\"}}", V::KIND, C::COMP).unwrap();
            shadow += 1;
            continue;
        }
        let (r, q, i) = (g.below(4) as usize, g.below(4) as usize, g.below(N as u64) as usize);
        let line = sweep::guard(|| match g.below(10) {
            0 => {
                let c: [C; N] = std::array::from_fn(|_| C::any(&mut g));
                regs[r] = V::make(c, g.next());
                format!("\"op\":\"put\",\"r\":{},\"v\":{}", r + 1, list(c))
            }
            1 if g.below(3) == 0 => {
                regs[r] = V::default();
                format!("\"op\":\"default\",\"r\":{}", r + 1)
            }
            1 | 2 => {
                match g.below(3) {
                    0 => regs[r] = regs[q],
                    #[allow(clippy::clone_on_copy)]
                    1 => regs[r] = regs[q].clone(),
                    _ => {
                        let from = regs[q];
                        regs[r].clone_from(&from)
                    }
                }
                format!("\"op\":\"copy\",\"r\":{},\"q\":{}", r + 1, q + 1)
            }
            3 | 4 => {
                let c = regs[r].comps()[i].near(&mut g);
                regs[r].set(i, c);
                format!("\"op\":\"set\",\"r\":{},\"i\":{},\"c\":{}", r + 1, i + 1, c.show())
            }
            5 => format!("\"op\":\"read\",\"r\":{},\"v\":{}", r + 1, list(regs[r].comps())),
            6 => {
                let texts: Vec<_> = regs[r].comps().iter().map(|c| format!("\"{c:?}\"")).collect();
                format!("\"op\":\"debug\",\"r\":{},\"texts\":[{}],\"text\":{:?}", r + 1, texts.join(","), format!("{:?}", regs[r]))
            }
            _ => format!("\"op\":\"eq\",\"r\":{},\"q\":{},\"eq\":{},\"ne\":{}", r + 1, q + 1, (regs[r] == regs[q]) as u8, (regs[r] != regs[q]) as u8),
        });
        match line {
            Some(l) => writeln!(out, "{{{l}}}").unwrap(),
            None => {
                rep.violation(format!("{name}: an operation on values panics"));
                return;
            }
        }
    }
    rep.count("histories", shadow);
}

/// All values of N special numbers, against all
fn special<const N: usize, V: Value<f32, N>>(rep: &mut Report, cx: &Ctx) {
    let nums: Vec<f32> = cx.table.iter().map(|r| r.1).take((cx.table.len() as f64).sqrt() as usize).collect();
    let k = nums.len() as u64;
    // equal, by the rows
    let eq: Vec<bool> = cx.table.iter().map(|r| r.2).collect();
    let at = |mut j: u64| -> [usize; N] {
        std::array::from_fn(|_| {
            let i = j % k;
            j /= k;
            i as usize
        })
    };
    let all = k.pow(N as u32);
    let step = if cx.thorough || all * all < 1 << 26 { 1 } else { 7 };
    let (tried, bad) = sweep::sweep(
        all * all / step,
        |j| {
            let j = j * step + j % step;
            let (a, b) = (at(j / all), at(j % all));
            let want = (0..N).all(|i| eq[a[i] * k as usize + b[i]]);
            let (x, y) = (V::make(a.map(|i| nums[i]), 0), V::make(b.map(|i| nums[i]), 0));
            (x == y) == want && (x != y) != want
        },
        |j, _| {
            let j = j * step + j % step;
            let (a, b) = (at(j / all).map(|i| nums[i]), at(j % all).map(|i| nums[i]));
            format!("{}: {a:?} == {b:?} is {}, and != is {}", V::KIND, V::make(a, 0) == V::make(b, 0), V::make(a, 0) != V::make(b, 0))
        },
    );
    rep.count("special pairs", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
}

fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let number = |r: &rows::Row| f32::from_bits((r.int("s") as u32) << 31 | r.int("m") as u32);
    let rec = |v: &rows::Val| number(v.rec());
    let table = rows::load(&args.req("rows"));
    let table: Vec<_> = table.iter().map(|r| (rec(&r.0["a"]), rec(&r.0["b"]), r.int("eq") == 1)).collect();
    let cx = Ctx { seed: args.seed(), thorough: args.thorough(), events: args.opt("events").map_or(300, |s| s.parse().unwrap()) * if args.thorough() { 20 } else { 1 }, table };
    rep.count("rows", cx.table.len() as u64);
    let mut out = String::new();
    let mut of = 0;
    macro_rules! kinds {
        ($($c:ty, $n:literal, $v:ty;)*) => {$(
            of += 1;
            kind::<$c, $n, $v>(&mut rep, &cx, &mut out, of);
        )*};
    }
    kinds! {
        f32, 1, F32; f32, 4, Quaternion;
        i8, 2, Vector2d<i8>; i16, 2, Vector2d<i16>; i32, 2, Vector2d<i32>; u8, 2, Vector2d<u8>; u16, 2, Vector2d<u16>; u32, 2, Vector2d<u32>; f32, 2, Vector2d<f32>; F32, 2, Vector2d<F32>; Key, 2, Vector2d<Key>;
        i8, 3, Vector3d<i8>; i16, 3, Vector3d<i16>; i32, 3, Vector3d<i32>; u8, 3, Vector3d<u8>; u16, 3, Vector3d<u16>; u32, 3, Vector3d<u32>; f32, 3, Vector3d<f32>; F32, 3, Vector3d<F32>; Key, 3, Vector3d<Key>;
    }
    special::<1, F32>(&mut rep, &cx);
    special::<2, Vector2d<f32>>(&mut rep, &cx);
    special::<3, Vector3d<f32>>(&mut rep, &cx);
    special::<4, Quaternion>(&mut rep, &cx);
    std::fs::write(args.req("trace"), &out).unwrap_or_else(|e| harness::die(&format!("{e}")));
    rep.finish()
}
