//! Numbers and pairs of numbers where rounding is delicate, and their notation in the histories of ArithTrace and ExactTrace.
use crate::Rng;

pub fn num(x: f32) -> String {
    let b = x.to_bits();
    format!("{{\"s\":{},\"m\":{}}}", b >> 31, b & 0x7fff_ffff)
}
/// The other operand of x, where rounding is delicate
pub fn partner(g: &mut Rng, x: f32) -> f32 {
    let sign = (g.u32() & 1) << 31;
    let b = x.to_bits() & 0x7fff_ffff;
    let near = |d: i64| f32::from_bits((b as i64 + d).clamp(0, 0x7f80_0001) as u32 | sign);
    let e = (b >> 23) as i64;
    match g.below(14) {
        0 => near(0),
        1 => near(g.range(-3, 3)),
        2 => near(g.range(-0x80_0000, 0x80_0000)),
        // powers of two, and numbers with few bits, around the last place of x
        3 | 4 => f32::from_bits(((e + g.range(-27, 1)).clamp(0, 254) as u32) << 23 | sign | [0, 0, 1, 0x40_0000, 0x7f_ffff][g.below(5) as usize]),
        5 => f32::from_bits(((e + g.range(-26, 26)).clamp(0, 255) as u32) << 23 | sign | g.u32() & 0x7f_ffff),
        // products and quotients around the ends of the range
        6 => f32::from_bits(((381 - e + g.range(-1, 1)).clamp(0, 254) as u32) << 23 | sign | g.u32() & 0x7f_ffff),
        7 => f32::from_bits(((127 - e + g.range(-25, 2)).clamp(0, 254) as u32) << 23 | sign | g.u32() & 0x7f_ffff),
        8 => f32::from_bits(((e - 127 + g.range(-2, 2)).clamp(0, 254) as u32) << 23 | sign | g.u32() & 0x7f_ffff),
        9 => f32::from_bits(((e + 127 + g.range(-2, 25)).clamp(0, 254) as u32) << 23 | sign | g.u32() & 0x7f_ffff),
        10 => (g.range(-40, 40) as f32) * g.pick(&[0.25f32, 0.5, 1.0, 1.0, 3.0]),
        11 => f32::from_bits([0, 1, 0x7f_ffff, 0x80_0000, 0x7f7f_ffff, 0x7f80_0000, 0x7f80_0001, 0x7fc0_0000, 0x3f80_0000][g.below(9) as usize] | sign),
        12 => f32::from_bits(g.u32() & 0x007f_ffff | sign),
        _ => f32::from_bits(g.u32()),
    }
}
pub fn operand(g: &mut Rng) -> f32 {
    let x = f32::from_bits(g.u32());
    match g.below(6) {
        0 => partner(g, 1.0),
        1 => f32::from_bits(x.to_bits() & 0xff80_0000 | [0, 1, 0x40_0000, 0x7f_ffff][g.below(4) as usize]),
        2 => g.range(-5000, 5000) as f32 / 8.0,
        _ => x,
    }
}

