//! Prints the defmt encoding of values: what they are (type, bits of the components), and the bytes that were logged.
use defmt::Format;
use micromath::vector::{Component, Vector2d, Vector3d};
use micromath::{Quaternion, F32};
use std::cell::RefCell;
use std::fmt::Write;

thread_local! {
    static BYTES: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}
// what a global logger consists of
#[no_mangle]
fn _defmt_acquire() {}
#[no_mangle]
fn _defmt_release() {}
#[no_mangle]
fn _defmt_write(bytes: &[u8]) {
    BYTES.with(|b| b.borrow_mut().extend(bytes));
}
#[no_mangle]
fn _defmt_timestamp(_: defmt::Formatter<'_>) {}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u32 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        (self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 32) as u32
    }
}
trait Bits: Component + Format {
    const NAME: &'static str;
    fn of(bits: u32) -> Self;
    fn bits(self) -> i64;
}
macro_rules! ints {
    ($($t:ident)*) => {$(impl Bits for $t {
        const NAME: &'static str = stringify!($t);
        fn of(bits: u32) -> Self { bits as $t }
        fn bits(self) -> i64 { self as i32 as i64 }
    })*};
}
ints!(i8 i16 i32 u8 u16 u32);
impl Bits for f32 {
    const NAME: &'static str = "f32";
    fn of(bits: u32) -> Self {
        f32::from_bits(bits)
    }
    fn bits(self) -> i64 {
        self.to_bits() as i32 as i64
    }
}
impl Bits for F32 {
    const NAME: &'static str = "F32";
    fn of(bits: u32) -> Self {
        F32(f32::from_bits(bits))
    }
    fn bits(self) -> i64 {
        self.0.to_bits() as i32 as i64
    }
}
/// The value as an argument of a format string: its tag and its data
fn emit(out: &mut String, kind: &str, ty: &str, comps: &[i64], v: &dyn Fn()) {
    BYTES.with(|b| b.borrow_mut().clear());
    v();
    let hex: String = BYTES.with(|b| b.borrow().iter().map(|b| format!("{b:02x}")).collect());
    writeln!(out, "{kind} {ty} {} {hex}", comps.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")).unwrap();
}
fn bits(g: &mut Rng) -> u32 {
    const SPECIAL: [f32; 10] = [0.0, -0.0, 1.0, -1.5, f32::MAX, f32::MIN_POSITIVE, 1e-45, f32::INFINITY, f32::NEG_INFINITY, f32::NAN];
    match g.next() % 4 {
        0 => SPECIAL[g.next() as usize % SPECIAL.len()].to_bits(),
        1 => g.next() % 200,
        2 => ((g.next() % 2000) as f32 - 1000.0).to_bits(),
        _ => g.next(),
    }
}
fn vectors<C: Bits>(out: &mut String, g: &mut Rng, n: usize) {
    for _ in 0..n {
        let c = [C::of(bits(g)), C::of(bits(g)), C::of(bits(g))];
        let b = c.map(|c| c.bits());
        let (v2, v3) = (Vector2d { x: c[0], y: c[1] }, Vector3d { x: c[0], y: c[1], z: c[2] });
        emit(out, "v2", C::NAME, &b[..2], &|| defmt::export::fmt(&v2));
        emit(out, "v3", C::NAME, &b, &|| defmt::export::fmt(&v3));
    }
}

fn main() {
    let arg = |i: usize, d: u64| std::env::args().nth(i).and_then(|s| s.parse().ok()).unwrap_or(d);
    let mut g = Rng(arg(1, 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
    let n = arg(2, 100) as usize;
    let mut out = String::new();
    for _ in 0..n {
        let x = F32(f32::from_bits(bits(&mut g)));
        emit(&mut out, "f", "F32", &[x.bits()], &|| defmt::export::fmt(&x));
        let q = [0; 4].map(|_| f32::from_bits(bits(&mut g)));
        let v = Quaternion::new(q[0], q[1], q[2], q[3]);
        emit(&mut out, "q", "f32", &q.map(|c| c.bits()), &|| defmt::export::fmt(&v));
    }
    vectors::<i8>(&mut out, &mut g, n);
    vectors::<i16>(&mut out, &mut g, n);
    vectors::<i32>(&mut out, &mut g, n);
    vectors::<u8>(&mut out, &mut g, n);
    vectors::<u16>(&mut out, &mut g, n);
    vectors::<u32>(&mut out, &mut g, n);
    vectors::<f32>(&mut out, &mut g, n);
    vectors::<F32>(&mut out, &mut g, n);
    // where the program was loaded: format strings are identified by the low 16 bits of addresses
    println!("at {}", _defmt_acquire as *const () as usize);
    print!("{out}");
}
