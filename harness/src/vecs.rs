//! Vectors of both dimensions and all component types, behind one interface.
use crate::Rng;
use micromath::vector::{Component, Vector, Vector2d, Vector3d};
use micromath::F32;
use std::fmt::Debug;
use std::iter::Sum;
use std::ops::*;

pub trait Comp: Component + Sum + Debug + PartialEq + 'static {
    const NAME: &'static str;
    const FLOAT: bool;
    const LO: i64;
    const HI: i64;
    fn of(n: i64) -> Self;
    fn float(x: f32) -> Self;
    /// the value (integers)
    fn int(self) -> i64;
    fn num(self) -> f32;
    fn k2(self, v: Vector2d<Self>) -> Vector2d<Self>;
    fn k3(self, v: Vector3d<Self>) -> Vector3d<Self>;
    fn same(self, o: Self) -> bool;
}
macro_rules! int_comp {
    ($($t:ident)*) => {$(impl Comp for $t {
        const NAME: &'static str = stringify!($t);
        const FLOAT: bool = false;
        const LO: i64 = $t::MIN as i64;
        const HI: i64 = $t::MAX as i64;
        fn of(n: i64) -> Self { $t::try_from(n).unwrap() }
        fn float(_: f32) -> Self { unreachable!() }
        fn int(self) -> i64 { self as i64 }
        fn num(self) -> f32 { self as f32 }
        fn k2(self, v: Vector2d<Self>) -> Vector2d<Self> { self * v }
        fn k3(self, v: Vector3d<Self>) -> Vector3d<Self> { self * v }
        #[inline]
        fn same(self, o: Self) -> bool { self == o }
    })*};
}
int_comp!(i8 i16 i32 u8 u16 u32);
impl Comp for f32 {
    const NAME: &'static str = "f32";
    const FLOAT: bool = true;
    const LO: i64 = -(1 << 24);
    const HI: i64 = 1 << 24;
    fn of(n: i64) -> Self {
        n as f32
    }
    fn float(x: f32) -> Self {
        x
    }
    fn int(self) -> i64 {
        exact_int(self)
    }
    fn num(self) -> f32 {
        self
    }
    fn k2(self, v: Vector2d<Self>) -> Vector2d<Self> {
        self * v
    }
    fn k3(self, v: Vector3d<Self>) -> Vector3d<Self> {
        self * v
    }
    #[inline]
    fn same(self, o: Self) -> bool {
        crate::same_bits(self, o)
    }
}
impl Comp for F32 {
    const NAME: &'static str = "F32";
    const FLOAT: bool = true;
    const LO: i64 = -(1 << 24);
    const HI: i64 = 1 << 24;
    fn of(n: i64) -> Self {
        F32(n as f32)
    }
    fn float(x: f32) -> Self {
        F32(x)
    }
    fn int(self) -> i64 {
        exact_int(self.0)
    }
    fn num(self) -> f32 {
        self.0
    }
    fn k2(self, v: Vector2d<Self>) -> Vector2d<Self> {
        self * v
    }
    fn k3(self, v: Vector3d<Self>) -> Vector3d<Self> {
        self * v
    }
    #[inline]
    fn same(self, o: Self) -> bool {
        crate::same_bits(self.0, o.0)
    }
}
/// The integer value of a number, or one that no history allows
pub fn exact_int(x: f32) -> i64 {
    if x.fract() == 0.0 && x.abs() < 1e9 {
        x as i64
    } else {
        77_777_777
    }
}

pub trait Vx<C: Comp>:
    Vector<C>
    + PartialEq
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<C, Output = Self>
    + Div<C, Output = Self>
    + AddAssign
    + SubAssign
    + MulAssign<C>
    + DivAssign<C>
    + Index<usize, Output = C>
    + Sum<Self>
    + for<'a> Sum<&'a Self>
    + 'static
{
    const DIM: usize;
    fn make(c: &[C]) -> Self;
    /// the fields
    fn fields(self) -> [C; 3];
    fn scaled(k: C, v: Self) -> Self;
    fn cross_fn(self, o: Self) -> Vector3d<C>;
    fn cross_op(self, o: Self) -> Vector3d<C>;
    fn dot_fn(self, o: Self) -> C;
    fn array_fn(&self) -> Vec<C>;
    fn via_tuple(self) -> Self;
    fn via_array(self) -> Self;
    /// tuple, array
    fn out_of(self) -> (Vec<C>, Vec<C>);
    fn comps(self) -> Vec<C> {
        self.fields()[..Self::DIM].to_vec()
    }
}
impl<C: Comp> Vx<C> for Vector2d<C> {
    const DIM: usize = 2;
    fn make(c: &[C]) -> Self {
        Vector2d { x: c[0], y: c[1] }
    }
    #[inline]
    fn fields(self) -> [C; 3] {
        [self.x, self.y, C::default()]
    }
    fn scaled(k: C, v: Self) -> Self {
        k.k2(v)
    }
    fn cross_fn(self, o: Self) -> Vector3d<C> {
        self.cross(o)
    }
    fn cross_op(self, o: Self) -> Vector3d<C> {
        self * o
    }
    fn dot_fn(self, o: Self) -> C {
        Vector2d::dot(self, o)
    }
    fn array_fn(&self) -> Vec<C> {
        self.to_array().to_vec()
    }
    fn via_tuple(self) -> Self {
        let t: (C, C) = self.into();
        t.into()
    }
    fn via_array(self) -> Self {
        let t: [C; 2] = self.into();
        t.into()
    }
    fn out_of(self) -> (Vec<C>, Vec<C>) {
        let t: (C, C) = self.into();
        let a: [C; 2] = self.into();
        (vec![t.0, t.1], a.to_vec())
    }
}
impl<C: Comp> Vx<C> for Vector3d<C> {
    const DIM: usize = 3;
    fn make(c: &[C]) -> Self {
        Vector3d { x: c[0], y: c[1], z: c[2] }
    }
    #[inline]
    fn fields(self) -> [C; 3] {
        [self.x, self.y, self.z]
    }
    fn scaled(k: C, v: Self) -> Self {
        k.k3(v)
    }
    fn cross_fn(self, o: Self) -> Vector3d<C> {
        self.cross(o)
    }
    fn cross_op(self, o: Self) -> Vector3d<C> {
        self * o
    }
    fn dot_fn(self, o: Self) -> C {
        Vector3d::dot(self, o)
    }
    fn array_fn(&self) -> Vec<C> {
        self.to_array().to_vec()
    }
    fn via_tuple(self) -> Self {
        let t: (C, C, C) = self.into();
        t.into()
    }
    fn via_array(self) -> Self {
        let t: [C; 3] = self.into();
        t.into()
    }
    fn out_of(self) -> (Vec<C>, Vec<C>) {
        let t: (C, C, C) = self.into();
        let a: [C; 3] = self.into();
        (vec![t.0, t.1, t.2], a.to_vec())
    }
}

const SPECIAL: [f32; 22] = [
    0.0,
    -0.0,
    1.0,
    -1.0,
    0.5,
    2.0,
    -3.0,
    1.5,
    10.0,
    0.1,
    -0.3,
    f32::MAX,
    f32::MIN,
    f32::MIN_POSITIVE,
    1e-45,
    f32::INFINITY,
    f32::NEG_INFINITY,
    f32::NAN,
    16777216.0,
    16777215.0,
    1e19,
    -1e-20,
];
/// A component: corners of the range, small ones, any; numbers of similar or any size
pub fn comp<C: Comp>(g: &mut Rng, kind: u64) -> C {
    if C::FLOAT {
        return C::float(match kind {
            0 => g.pick(&SPECIAL),
            1 => g.range(-40, 40) as f32,
            2 => (g.unit() as f32 - 0.5) * 100.0,
            3 => f32::from_bits(g.u32()),
            4 => g.range(-4096, 4096) as f32 / 16.0,
            _ => (g.unit() as f32 - 0.5) * 2f32.powi(g.range(-40, 40) as i32),
        });
    }
    let n = match kind {
        0 => g.pick(&[C::LO, C::LO + 1, C::HI, C::HI - 1, 0, 1, -1, C::LO / 2, C::HI / 2, C::HI / 3, 2]),
        1 | 4 => g.range(-12, 12),
        2 => {
            let r = (C::HI as f64).sqrt() as i64;
            g.range(-r, r)
        }
        3 => g.range(C::LO, C::HI),
        _ => {
            let r = (((C::HI as f64) / 3.0).sqrt() * 1.2) as i64;
            g.range(-r, r)
        }
    };
    C::of(if n < C::LO { -n } else { n }.clamp(C::LO, C::HI))
}
