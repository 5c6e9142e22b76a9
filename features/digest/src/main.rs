//! Prints a digest of the results of each group of functions that the enabled features offer: `group hash`.
use micromath::{F32Ext, F32};

// what a global defmt logger consists of
#[no_mangle]
fn _defmt_acquire() {}
#[no_mangle]
fn _defmt_release() {}
#[no_mangle]
fn _defmt_write(_: &[u8]) {}
#[no_mangle]
fn _defmt_timestamp(_: defmt::Formatter<'_>) {}

struct Hash(u64);
impl Hash {
    fn bits(&mut self, b: u64) {
        self.0 = (self.0 ^ b).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23);
    }
    fn f(&mut self, x: f32) {
        self.bits(if x.is_nan() { 0x7fc0_0000 } else { x.to_bits() } as u64);
    }
    fn done(self, group: &str) {
        println!("{group} {:08x}", (self.0 ^ self.0 >> 32) as u32);
    }
}
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u32 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        (self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 32) as u32
    }
    fn float(&mut self) -> f32 {
        match self.next() % 4 {
            0 => (self.next() % 41) as f32 * 0.25 - 5.0,
            1 => (self.next() % 2001) as f32 * 0.01 - 10.0,
            _ => f32::from_bits(self.next()),
        }
    }
    fn tame(&mut self) -> f32 {
        (self.next() % 4001) as f32 * 0.01 - 20.0
    }
}
fn rng() -> Rng {
    Rng(std::env::args().nth(1).and_then(|s| s.parse::<u64>().ok()).unwrap_or(1).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1)
}
const N: usize = 20000;

fn float() {
    let (mut h, mut g) = (Hash(1), rng());
    for _ in 0..N {
        let (x, y, n) = (g.float(), g.float(), g.next() as i32 % 40);
        let (s, t) = (F32(x), F32(y));
        for v in [
            s.abs(), s.asin(), s.atan(), s.atan_norm(), s.atan2(t), s.ceil(), s.copysign(t), s.cos(), s.cosh(), s.div_euclid(t),
            s.exp(), s.floor(), s.fract(), s.hypot(t), s.inv(), s.invsqrt(), s.ln(), s.log(t), s.log2(), s.log10(), s.mul_add(t, s), s.powf(t), s.powi(n),
            s.recip(), s.rem_euclid(t), s.round(), s.signum(), s.sin(), s.sin_cos().0, s.sin_cos().1, s.sqrt(), s.tan(), s.trunc(), -s, s + t, s - t, s * t, s / t, s % t,
        ] {
            h.f(v.0);
        }
        for v in [
            F32Ext::abs(x), F32Ext::acos(x), F32Ext::asin(x), F32Ext::atan(x), F32Ext::atan2(x, y), F32Ext::ceil(x), F32Ext::copysign(x, y), F32Ext::cos(x),
            F32Ext::exp(x), F32Ext::floor(x), F32Ext::fract(x), F32Ext::hypot(x, y), F32Ext::inv(x), F32Ext::invsqrt(x), F32Ext::ln(x), F32Ext::log(x, y),
            F32Ext::log2(x), F32Ext::log10(x), F32Ext::powf(x, y), F32Ext::powi(x, n), F32Ext::rem_euclid(x, y), F32Ext::round(x), F32Ext::signum(x),
            F32Ext::sin(x), F32Ext::sqrt(x), F32Ext::tan(x), F32Ext::trunc(x),
        ] {
            h.f(v);
        }
        for b in format!("{s} {s:e} {s:E} {s:?}").bytes() {
            h.bits(b as u64);
        }
        h.f("12.5".parse::<F32>().unwrap().0);
        h.bits(s.partial_cmp(&t).map_or(9, |o| o as i8 as u64));
    }
    h.done("float");
}

#[cfg(feature = "statistics")]
fn statistics() {
    use micromath::statistics::{Mean, StdDev, Trim, Variance};
    let (mut h, mut g) = (Hash(2), rng());
    for _ in 0..N / 10 {
        let n = 1 + g.next() as usize % 30;
        let xs: Vec<f32> = (0..n).map(|_| g.tame()).collect();
        h.f(xs.iter().copied().mean());
        h.f((&xs[..]).variance());
        h.f((&xs[..]).stddev());
        for y in (&xs[..]).trim() {
            h.f(y);
        }
    }
    h.done("statistics");
}
#[cfg(feature = "vector")]
fn vector() {
    use micromath::vector::{F32x2, F32x3, I16x3, Vector};
    let (mut h, mut g) = (Hash(3), rng());
    for _ in 0..N {
        let c: Vec<f32> = (0..6).map(|_| g.tame()).collect();
        let (u, v) = (F32x2::from((c[0], c[1])), F32x2::from((c[2], c[3])));
        let (s, t) = (F32x3::from((c[0], c[1], c[2])), F32x3::from((c[3], c[4], c[5])));
        let i = I16x3::from((c[0] as i16, c[1] as i16, c[2] as i16));
        for x in [u.dot(v), u.perpendicular_dot(v), u.magnitude(), u.distance(v), s.dot(t), s.magnitude(), s.distance(t), i.magnitude()] {
            h.f(x);
        }
        for w in [u.cross(v), s.cross(t), s + t, s - t, s * c[3], s / c[4], F32x3::from(u)] {
            w.iter().for_each(|x| h.f(x));
        }
    }
    h.done("vector");
}
#[cfg(feature = "quaternion")]
fn quaternion() {
    use micromath::Quaternion;
    let (mut h, mut g) = (Hash(4), rng());
    for _ in 0..N {
        let p = Quaternion::new(g.tame(), g.tame(), g.tame(), g.tame());
        let q = Quaternion::new(g.tame(), g.tame(), g.tame(), g.tame() + 50.0);
        for r in [p + q, p - q, p * q, p * 3.0, p.conj(), q.inv(), q.normalize(), p.scale(2.5f32)] {
            r.to_array().iter().for_each(|x| h.f(*x));
        }
        let (a, b, c) = q.normalize().to_euler();
        for x in [p.dot(q), p.norm(), p.magnitude(), a, b, c] {
            h.f(x);
        }
    }
    h.done("quaternion");
}
#[cfg(all(feature = "quaternion", feature = "vector"))]
fn rotations() {
    use micromath::{vector::F32x3, Quaternion};
    let (mut h, mut g) = (Hash(5), rng());
    for _ in 0..N {
        let (u, v) = (F32x3::from((g.tame(), g.tame(), g.tame() + 30.0)), F32x3::from((g.tame(), g.tame(), g.tame() + 30.0)));
        let q = Quaternion::axis_angle(u, g.tame());
        let p = Quaternion::from_two_vectors(u, v);
        for r in [p, q, Quaternion::from(v)] {
            r.to_array().iter().for_each(|x| h.f(*x));
        }
        for w in [q.rotate(v), q * u] {
            w.to_array().iter().for_each(|x| h.f(*x));
        }
    }
    h.done("rotations");
}
#[cfg(feature = "num-traits")]
fn numbers() {
    use num_traits::{Inv, Num, One, Zero};
    let (mut h, mut g) = (Hash(6), rng());
    for _ in 0..N {
        let x = F32(g.float());
        h.f(Inv::inv(x).0);
        h.f((x + F32::zero()).0);
        h.f((x * F32::one()).0);
        h.bits(x.is_zero() as u64);
        h.f(F32::from_str_radix(&format!("{}", g.next()), 10).unwrap().0);
    }
    h.done("numbers");
}

fn main() {
    float();
    #[cfg(feature = "statistics")]
    statistics();
    #[cfg(feature = "vector")]
    vector();
    #[cfg(feature = "quaternion")]
    quaternion();
    #[cfg(all(feature = "quaternion", feature = "vector"))]
    rotations();
    #[cfg(feature = "num-traits")]
    numbers();
}
