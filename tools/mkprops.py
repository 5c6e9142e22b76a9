#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are kept here in a readable form)."""
import json, os, sys
P = []
def p(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=(), state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=list(over), text=qtext), why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=list(observe), hook_needed=hook))
    if state: d["anchors"]["state"] = state
    P.append(d)
F = "src/float/"
p("C01", "Sign manipulation is exact: abs, copysign, signum, negation",
  """For every f32, abs() clears only the sign bit, negation flips only the sign bit, and copysign(s) keeps the magnitude
  bits of the receiver while taking the sign bit of s (zeros, subnormals, infinities and NaN included). signum() is exactly
  1.0 or -1.0 according to the sign bit (so -1.0 for -0.0), and NaN for NaN.""",
  "every bit pattern of the receiver; every sign donor", """The tests try a handful of numbers; a sign mask that is wrong for
  zeros, NaN or large exponents is never executed with them.""",
  [F+"abs.rs", F+"copysign.rs", F+"signum.rs", "src/float.rs"],
  [("F32::abs", F+"abs.rs"), ("F32::copysign", F+"copysign.rs"), ("F32::signum", F+"signum.rs"), ("Neg for F32", "src/float.rs")],
  observe=["F32::abs", "F32::copysign", "F32::signum", "-F32"])
p("C02", "trunc and fract split every number exactly",
  """For every finite f32, trunc() is the integer nearest to x that is not farther from zero than x, and fract() is exactly
  x - trunc(x) (numerically: the sign of a zero is not specified), so that trunc(x) + fract(x) == x. trunc() of an infinity is
  that infinity, fract() of an infinity is NaN, and both of NaN are NaN.""",
  "every f32 bit pattern", """The tests sample about a dozen values below 2^31; the bit masks differ per exponent, and a mistake in
  one of the 256 exponents, or for one mantissa pattern, is invisible to them.""",
  [F+"trunc.rs", F+"fract.rs"], [("F32::trunc", F+"trunc.rs"), ("F32::fract", F+"fract.rs")],
  observe=["F32::trunc", "F32::fract"])
p("C03", "floor and ceil return the adjacent integer for every number",
  """For every finite f32, floor() is the largest integer not greater than x, and ceil() the smallest integer not less than x,
  exactly (numerically: the sign of a zero is not specified). Infinities are returned unchanged, and NaN gives NaN.""",
  "every f32 bit pattern", """The tests sample a few values; integer conversions saturate at 2^31, and halfway, tiny and huge
  inputs each take other paths.""", [F+"floor.rs", F+"ceil.rs"], [("F32::floor", F+"floor.rs"), ("F32::ceil", F+"ceil.rs")],
  observe=["F32::floor", "F32::ceil"])
p("C04", "round returns the nearest integer, ties away from zero",
  """For every finite f32, round() is exactly the integer nearest to x, and of two equally near ones the one farther from zero
  (numerically: the sign of a zero is not specified). Infinities are returned unchanged, and NaN gives NaN.""",
  "every f32 bit pattern", """Adding 0.5 goes wrong only next to ties and above 2^23, which a handful of samples does not meet.""",
  [F+"round.rs"], [("F32::round", F+"round.rs")], observe=["F32::round"])
p("C05", "sin and cos stay within 0.002 of the true value, and within [-1, 1]",
  """For every f32 with |x| <= 8192, sin(x) and cos(x) (x in radians) differ from the true value by at most 0.002, and for larger
  finite |x| by at most 0.002 + |x| * 2^-22. For every finite x the result lies in [-1, 1] up to a rounding error of 2^-20, and for
  infinities and NaN it is NaN.""",
  "every f32 bit pattern", """The tests compare about 60 arguments in a few turns; the range reduction and the parabola have other
  error terms in every quadrant and for every magnitude.""",
  [F+"cos.rs", F+"sin.rs"], [("F32::cos (range reduction, parabola, extra precision)", F+"cos.rs"), ("F32::sin", F+"sin.rs")],
  observe=["F32::sin", "F32::cos"])
p("C06", "sin_cos and tan agree with sin and cos",
  """For every f32, sin_cos(x) is exactly the pair (sin(x), cos(x)) that the separate functions return. For |x| <= 8192, t = tan(x)
  satisfies |t*cos(x) - sin(x)| <= 0.002*(1 + |t|) for the true sine and cosine (an infinite t is only allowed where
  |cos(x)| <= 0.002), for every finite x it is the quotient sin(x)/cos(x) of these two results up to f32 rounding (infinite only where that overflows, and not specified where both are 0), and tan of infinities and NaN is NaN.""",
  "every f32 bit pattern", """The tests allow tan an error of 0.6 at a few angles; near the poles and in other periods nothing is
  checked.""", [F+"tan.rs", F+"sin_cos.rs"], [("F32::tan", F+"tan.rs"), ("F32::sin_cos", F+"sin_cos.rs")],
  observe=["F32::tan", "F32::sin_cos"])
p("C07", "atan and atan_norm approximate the arctangent of every number",
  """For every f32 except NaN, atan(x) differs from the true arctangent by at most 0.003, and atan_norm(x) differs from the true
  arctangent divided by pi/2 by at most 0.0019 and lies in [-1, 1]. Both are odd (f(-x) = -f(x) exactly, zeros included), and give NaN for NaN only.""",
  "every f32 bit pattern, infinities included", """The tests sample some twenty values up to 2^7; huge, tiny and infinite arguments
  overflow or vanish in the rational approximation.""", [F+"atan.rs"], [("F32::atan_norm", F+"atan.rs"), ("F32::atan", F+"atan.rs")],
  observe=["F32::atan", "F32::atan_norm"])
p("C08", "atan2 gives the angle of (x, y) in every quadrant",
  """For all finite y, x where max(|x|, |y|) lies in [2^-60, 2^60], atan2(y, x) lies in [-pi, pi] and differs from the true angle of the
  point (x, y) by at most 0.003 modulo 2*pi, and unless |y| < |x|*2^-20 its sign is that of y; for y > 0 and y = +0 it is never negative (so it is pi, not -pi, on the negative x axis). atan2_norm(y, x) lies in [0, 4] and is the same
  angle in quarter turns, within 0.0019 modulo 4. The angle of any pair of zeros is 0, and no angle is NaN unless an argument is NaN
  (within these ranges).""".replace("(within these ranges)", "or the point is outside these ranges"),
  "all pairs of f32 (sampled: signs, zeros, axes, diagonals, and ratios of all magnitudes)",
  """The tests sample a circle of points; the quadrant bits, axes and extreme ratios are combinations of two arguments.""",
  [F+"atan2.rs"], [("F32::atan2_norm (quadrant offset from the sign bits)", F+"atan2.rs"), ("F32::atan2", F+"atan2.rs")],
  observe=["F32::atan2", "F32Ext::atan2_norm"])
p("C09", "asin and acos approximate the inverse sine and cosine on [-1, 1]",
  """For every f32 in [-1, 1], asin(x) differs from the true value by at most 0.02 and lies in [-pi/2, pi/2] up to 1e-6, and acos(x)
  differs from the true value by at most 0.03 and lies in [0, pi] up to 1e-6. For every other input, NaN and infinities included, both
  return NaN (and do not panic).""",
  "every f32 bit pattern", """acos is tested at about twenty values with a tolerance of 0.03, and asin at even fewer; the ends of the
  domain, zero, and tiny arguments each behave differently.""",
  [F+"asin.rs", F+"acos.rs"], [("F32::asin", F+"asin.rs"), ("F32::acos", F+"acos.rs")], observe=["F32::asin", "F32Ext::acos"])
p("C10", "sqrt and hypot approximate the root within 6.1 percent, and sqrt is monotone",
  """For every normal positive f32, sqrt(x) is at most 6.1% above the true root and not below it by more than 0.001%, and sqrt(a) <=
  sqrt(b) whenever 0 <= a <= b; zeros and subnormals give a positive number below 1e-18, infinity gives infinity, negative numbers and NaN
  give NaN. hypot(x, y) is within the same bounds of the true hypotenuse whenever max(|x|, |y|) lies in [2^-60, 2^60], does not depend on the signs
  and the order of the arguments, and is never NaN for finite arguments.""",
  "every f32 bit pattern; all pairs for hypot (sampled)", """The tests sample a few roots with a tolerance of 5% relative error; every
  exponent parity and mantissa has another error.""",
  [F+"sqrt.rs", F+"hypot.rs"], [("F32::sqrt", F+"sqrt.rs"), ("F32::hypot", F+"hypot.rs")], observe=["F32::sqrt", "F32::hypot"])
p("C11", "inv, recip and invsqrt approximate reciprocals over the whole range",
  """For every normal f32 with |x| <= 2^126, inv(x) is within 12.6% of 1/x; recip(x) is within 1e-5 (relative) of 1/x while |x| <= 8.3e37;
  and for every normal positive x, invsqrt(x) is within 3.5% of 1/sqrt(x). Beyond these magnitudes inv and recip give a number of
  magnitude at most 1.3e-38, both have the sign of x or are zero, an infinity gives zero and NaN gives NaN, and recip of zero is infinite.
  invsqrt gives NaN for negative numbers and NaN, a number in (0, 1e-19] for infinity, and never panics.""",
  "every f32 bit pattern", """The tests sample positive numbers (inv at a tolerance of 8%); the bit tricks wrap around for negative,
  large, tiny and special arguments.""",
  [F+"inv.rs", F+"recip.rs", F+"invsqrt.rs"], [("F32::inv", F+"inv.rs"), ("F32::recip", F+"recip.rs"), ("F32::invsqrt", F+"invsqrt.rs")],
  observe=["F32::inv", "F32::recip", "F32::invsqrt"])
p("C12", "exp and cosh have a small relative error over the whole range",
  """For every f32 x in [-87.3, 88.7], exp(x) is within 0.1% of e^x (0.25% if x is negative), and for |x| <= 88.7 cosh(x) is within 0.1% of the true value and cosh(-x) =
  cosh(x). Above 88.8 exp is infinite (cosh beyond +-89.5), below -87.4 exp gives a number in [0, 1.2e-38], infinity and negative infinity
  included, and NaN gives NaN.""",
  "every f32 bit pattern", """The tests compare some 60 values; the split in whole and fractional part, the ends of the range, and the
  neighbourhoods of 0 and 1 are separate cases.""",
  [F+"exp.rs", F+"cosh.rs"], [("F32::exp_ln2_approx", F+"exp.rs"), ("F32::exp_smallx", F+"exp.rs"), ("F32::cosh", F+"cosh.rs")],
  observe=["F32::exp", "F32::cosh"])
p("C13", "ln, log2, log10 and log approximate logarithms of every positive normal",
  """For every positive normal f32, ln(x) differs from the true logarithm by at most 1e-4, log2(x) by at most 1.5e-4 and log10(x) by at most
  5e-5, and all three are exactly 0 at x = 1. log(x, b) differs from the true logarithm t of x to the base b by at most
  (1 + |t|) * 1e-4 / |ln(b)| + 1e-6 * |t|, for all positive normal x and b with |ln(b)| >= 0.01. NaN gives NaN.""",
  "every positive normal f32; all pairs for log (sampled)", """The tests try powers of ten, and below 1 they divide the error by a negative
  number, which accepts anything.""",
  [F+"ln.rs", F+"log.rs", F+"log2.rs", F+"log10.rs"], [("F32::ln", F+"ln.rs"), ("F32::log", F+"log.rs"), ("F32::log2", F+"log2.rs"), ("F32::log10", F+"log10.rs")],
  observe=["F32::ln", "F32::log", "F32::log2", "F32::log10"])
p("C14", "powf approximates real powers, with the right sign for negative bases",
  """For positive normal x and finite n, powf(x, n) is within a factor of f = e^(0.003 + 0.0001*|n|) of x^n whenever x^n*f and x^n/f lie between
  1.3e-38 and 3.4e38, it is infinite if x^n/f, and at most 1.3e-38 if x^n*f is beyond these limits, and exactly 1 for n = 0. For x < 0 it is NaN unless n is an integer, and then its magnitude is that of powf(|x|, n) and it
  is negative exactly for odd n, where every |n| >= 2^24 counts as an even integer. NaN in the base gives NaN.""",
  "all pairs of f32 (sampled: all magnitudes, integers, halves, neighbours of integers)", """The tests compare about 200 pairs of
  small numbers; parity and integrality of the exponent depend on exponent and mantissa bits.""",
  [F+"powf.rs", "src/float.rs"], [("F32::powf", F+"powf.rs"), ("F32::is_integer, F32::is_even", "src/float.rs")], observe=["F32::powf"])
p("C15", "powi multiplies exactly as often as the exponent says",
  """For every finite x and every i32 n where x^n lies between 1.2e-38 and 3.4e38, powi(x, n) is within a factor of e^((2*|n| + 8) * 2^-24) of it
  (so it is exact when all powers of x up to |n| are integers below 2^24), and it is negative exactly for negative x and odd n. Larger powers give infinity of that
  sign, smaller ones a number of magnitude at most 1.2e-38 (both up to that factor), x^0 is 1 for every x, powers of NaN with n # 0 are NaN,
  and no n panics (i32::MIN included).""",
  "all pairs of f32 and i32 (sampled: all exponents near the limits, all small n, powers of two, i32::MIN/MAX)",
  """The tests sample small n for a few bases; early exits depend on the exponent of x times n, and negative powers on 1/x.""",
  [F+"powi.rs"], [("F32::powi (early exits, square-and-multiply loop)", F+"powi.rs")], observe=["F32::powi"],
  state=[dict(name="(result, base, abs_n)", meaning="result * base^abs_n = x^n", where=F+"powi.rs")])
p("C16", "div_euclid and rem_euclid satisfy Euclidean division",
  """For finite x and finite nonzero y, rem_euclid(x, y) is the exact remainder r with 0 <= r < |y| and x - r a multiple of y (rounded once
  where x is negative, so that it may be |y|). For integers x and y of magnitude at most 2^24, or such integers both scaled by the same
  power of two, div_euclid(x, y) is exactly the q with x = q*y + r; for other finite x and nonzero y with |x/y| < 2^22 it is that q, too, unless x/y is within a relative 2^-22 of an integer, where it may
  be off by one. If x is infinite or NaN, or y is 0 or NaN, then rem_euclid is NaN.""",
  "all pairs of f32 (sampled: all sign combinations, multiples, neighbours of multiples, all magnitudes)",
  """Two pairs are tested; sign combinations and exact multiples are separate cases.""",
  [F+"div_euclid.rs", F+"rem_euclid.rs"], [("F32::div_euclid", F+"div_euclid.rs"), ("F32::rem_euclid", F+"rem_euclid.rs")],
  observe=["F32::div_euclid", "F32::rem_euclid"])
p("C17", "F32 operators, assignments, comparisons, sums are those of f32",
  """Every operator of F32 (+ - * / % and their assignment forms, unary minus), with F32 or f32 on either side, gives bit for bit the result of the
  same f32 operation with the operands in the same order (any NaN for NaN). Comparisons (==, <, partial_cmp) between F32 and F32 or f32 on either side
  are those of f32, sum() and product() fold all items once, in their order, and mul_add(a, b) is x*a + b, fused or not.""",
  "all pairs of f32 and all operator forms; histories of operations on registers", """None of the 33 operator impls is tested; swapped operands show up only for
  non-commutative operators of mixed types.""",
  ["src/float.rs", F+"mul_add.rs"], [("operator impls of F32", "src/float.rs"), ("F32::mul_add", F+"mul_add.rs")], over=("inputs", "histories"),
  observe=["operators of F32"])
p("C18", "F32 bits, constants, classification and conversions are those of f32",
  """from_bits and to_bits are inverse to each other, and is_nan, is_infinite, is_finite, is_sign_positive and is_sign_negative classify every bit
  pattern like IEEE 754 does. The associated constants of F32 equal those of f32 with the same name (ZERO and ONE are 0 and 1, and the default is 0),
  and conversions from i8, i16, u8, u16 and from and to f32 preserve the value exactly.""",
  "every bit pattern; every i8, i16, u8, u16", "None of it is tested.",
  ["src/float.rs"], [("F32 constants, predicates, From impls", "src/float.rs")], observe=["F32::from_bits", "F32::to_bits", "F32::is_nan", "From impls"])
p("C19", "F32Ext methods on f32 are the F32 methods",
  """Each method of the F32Ext trait called on an f32 returns, bit for bit (any NaN for NaN), what the method of the same name of F32 returns for the
  same value, with the arguments in the same order. For acos and atan2_norm, which F32 does not export, the trait method is itself bound by C09 and C08.""",
  "all 33 methods; every f32 (sampled densely), pairs for binary methods", """No test calls the trait methods of f32 (std's inherent methods hide them).""",
  ["src/f32ext.rs"], [("impl F32Ext for f32", "src/f32ext.rs")], observe=["F32Ext"])
p("C20", "No scalar operation panics, whatever the input",
  """No method of F32 and F32Ext panics for any arguments (every f32 bit pattern and every i32 exponent), also when arithmetic overflow checks and
  debug assertions are on.""",
  "every f32 bit pattern for unary methods; pairs and triples of all classes for others", """Overflows of the bit arithmetic need
  particular exponents; the tests use ordinary numbers.""",
  ["src/float.rs", F+"*.rs".replace("*", "invsqrt"), F+"exp.rs", F+"powi.rs", F+"recip.rs", F+"sqrt.rs"],
  [("bit arithmetic on exponents", F+"exp.rs"), ("integer subtraction of bit patterns", F+"invsqrt.rs")], observe=["panics"])
p("C21", "Vector arithmetic is component-wise for every component type",
  """For Vector2d and Vector3d over i8, i16, i32, u8, u16, u32, f32 and F32: the sum and difference of vectors, and the product and quotient of a vector and a scalar
  (on either side for products), apply the component operation to each axis, whenever each result fits the component type. The assignment operators leave exactly
  that result in the left operand, sum() of an iterator (owned or borrowed) adds up all its vectors starting from zero, and the default vector is zero.""",
  "all component types, both dimensions, all components (sampled with lane-distinguishing and extreme values); histories of operations",
  """Only division and one dot product of small i32 vectors are tested; an axis mixed up in one operator goes unnoticed.""",
  ["src/vector/vector2d.rs", "src/vector/vector3d.rs", "src/vector/commutative.rs"],
  [("Add, Sub, Mul, Div, *Assign, Sum", "src/vector/vector2d.rs"), ("Add, Sub, Mul, Div, *Assign, Sum", "src/vector/vector3d.rs"), ("impl_commutative!", "src/vector/commutative.rs")],
  over=("inputs", "histories"), observe=["vector operators"])
p("C22", "Dot, cross and perpendicular products obey their algebraic definitions",
  """Whenever the component type can represent all terms and partial sums, dot() (inherent and of the Vector trait) is the sum of the products of corresponding components,
  cross() of 3D vectors and vector * vector are (y1*z2-z1*y2, z1*x2-x1*z2, x1*y2-y1*x2), and magnitude_sq() is the dot product with itself. For 2D vectors
  perpendicular_dot() is x1*y2-y1*x2, and cross() and vector * vector are (0, 0, perpendicular_dot). For floating point components this holds up to rounding.""",
  "all component types and components (sampled); as polynomial identities for all reals", """One product per operation is tested.""",
  ["src/vector.rs", "src/vector/vector2d.rs", "src/vector/vector3d.rs"],
  [("dot, perpendicular_dot, cross", "src/vector/vector2d.rs"), ("dot, cross", "src/vector/vector3d.rs"), ("Vector::magnitude_sq", "src/vector.rs")], observe=["products"])
p("C23", "Vector construction, access and conversion keep components and order",
  """Components keep their order and value through From for tuples and arrays in both directions, to_array, iter(), get(), indexing, map() and from_slice/from_iter; get(i) is None and
  indexing panics exactly for i >= AXES (2 or 3), iter() yields each component once and then None for ever (so says every method of Iterator), and from_slice/from_iter panic exactly if the number of items is not AXES (from_iter with any iterator, however exact its size hint, and an endless one, too). A
  2D vector becomes the 3D vector with z = 0, and vectors of i8, i16, u8, u16 (and 3D vectors of F32) become f32 vectors with the same components.""",
  "all component types, all lengths and indices (0, 1, 2, 3, 4, usize::MAX), histories of iterator calls", """Only tuple and array round trips of i32
  are tested; panics, iterators and conversions to f32 are not.""",
  ["src/vector.rs", "src/vector/iter.rs", "src/vector/vector2d.rs", "src/vector/vector3d.rs"],
  [("Iter::next", "src/vector/iter.rs"), ("FromIterator, Index, From", "src/vector/vector2d.rs"), ("FromIterator, Index, From", "src/vector/vector3d.rs"), ("Vector::{from_slice,iter,map}", "src/vector.rs")],
  over=("inputs", "histories"), observe=["components"], state=[dict(name="Iter::position", meaning="next axis to yield", where="src/vector/iter.rs")])
p("C24", "Vector magnitude, distance and normalized are Euclidean within 6.1 percent",
  """For vectors whose components are convertible to f32 and whose largest component has a magnitude in [2^-60, 2^60], magnitude() is at most 6.1% above the
  true Euclidean length and not below it by more than 0.001%, distance() likewise for the difference of the two vectors (also if that overflows the component type; differences rounded to
  f32), and distance(a, b) = distance(b, a). normalized() divides each component by magnitude(), so that it keeps the direction, and has a length in [0.94, 1.001].""",
  "all component types with Into<f32>; all components (sampled)", """One vector is tested.""",
  ["src/vector.rs"], [("Vector::magnitude, distance, normalized", "src/vector.rs")], observe=["magnitude", "distance", "normalized"])
p("C25", "mean, variance and stddev are the sample statistics",
  """For n >= 1 finite samples, however many (whose sums and sums of squares do not overflow f32), mean() of an iterator is the sum of all items (those before the first end of the iterator, whatever its size hint says) divided by n; for n >= 2, variance() of a slice is the sum of squared deviations from the
  mean divided by n - 1, both up to f32 rounding of the sums and deviations (exactly, where all intermediate values are representable), and stddev() is the square root of the variance within 6.1%. The result does not
  depend on the order of the samples up to rounding, every sample counts, and integer slices give the same result as the same values in f32.""",
  "all sample counts and values (sampled; exact integer histories)", """Each is tested with one slice of three.""",
  ["src/statistics/mean.rs", "src/statistics/variance.rs", "src/statistics/stddev.rs"],
  [("Mean::mean", "src/statistics/mean.rs"), ("Variance::variance", "src/statistics/variance.rs"), ("StdDev::stddev", "src/statistics/stddev.rs")],
  over=("inputs", "histories"), observe=["mean", "variance", "stddev"])
p("C26", "trim yields the samples near the mean, in order, and nothing else",
  """For slices of n >= 2 finite samples with mean m and sample standard deviation s > 0 (s at least 2^-40, and sums of squares that do not overflow f32), trim_at(t) yields, in their original order and with multiplicity,
  every sample with |x - m| < t*s and no sample with |x - m| > 1.062*t*s, up to f32 rounding of m and x - m (the range between is up to the approximation), and then None for ever, through every method of Iterator. For t <= 0, and NaN, it yields nothing. trim() is trim_at(2.0), and Iter::new
  does the same as trim_at. If all samples are equal, all are kept for t >= 1.001, and for every t > 0 if their sum is exact in f32.""",
  "all slices, thresholds, positions of outliers (sampled; exact integer histories)", """One slice with one outlier is tested.""",
  ["src/statistics/trim.rs"], [("Iter::new, Iter::next", "src/statistics/trim.rs"), ("Trim::trim", "src/statistics/trim.rs")],
  over=("inputs", "histories"), observe=["Iterator::next of trim::Iter"], state=[dict(name="input, mean, stddev, threshold", meaning="remaining samples and the criterion", where="src/statistics/trim.rs")])
p("C27", "Quaternion arithmetic is the Hamilton algebra",
  """Quaternion multiplication follows i^2 = j^2 = k^2 = ijk = -1 (so it is associative, distributive over + and -, has IDENTITY = default as its unit, and norm(p*q) = norm(p)*norm(q)), where +, -, scale, * by f32 on either
  side and all assignment forms act on all four components, each exactly by the f32 operation (for infinities and NaN, too). conj() negates exactly the imaginary parts, dot() is the sum of the four products, and norm(q) = dot(q, q), each up to f32 rounding (exactly on small
  integers). new, From tuple/array/Vector3d, to_array and w(), x(), y(), z() keep values and order, with w = 0 for vectors.""",
  "all quaternions (sampled); as polynomial identities for all reals; histories of operations", """One product is tested; a sign error in one of the 16 terms may cancel in it.""",
  ["src/quaternion.rs"], [("Mul for Quaternion", "src/quaternion.rs"), ("Add, Sub, scale, conj, dot, norm", "src/quaternion.rs")],
  over=("inputs", "histories"), observe=["to_array"])
p("C28", "Quaternion magnitude, normalize and inv",
  """For quaternions whose largest component lies in [2^-30, 2^30], magnitude() is within 6.1% of the Euclidean length, normalize() has a length within 3.5% of 1 and points in the same direction (all components scaled by one positive
  factor), and inv() is conj() scaled by one positive factor within 12.6% of 1/norm(). normalize() and inv() panic exactly if norm() is zero.""",
  "all quaternions (sampled over magnitudes, axes, sparse components)", """Only the norm after a scaling by invsqrt is tested, for one quaternion.""",
  ["src/quaternion.rs"], [("magnitude, normalize, inv", "src/quaternion.rs")], observe=["magnitude", "normalize", "inv"])
p("C29", "rotate applies q*v*conj(q), and axis_angle builds the rotation",
  """rotate(v), and q * v, give the vector part of the Hamilton product q*v*conj(q) up to f32 rounding of the terms, for every q (not only of unit length; components of q and v up to 2^30), so that unit quaternions preserve lengths and dot products and composition p*q rotates by q first, then p. axis_angle(v, theta) is
  (cos(theta/2), sin(theta/2)*v) within 0.002 per unit component for |theta| <= 8192, for all convertible component types, so that for a unit axis it turns vectors counterclockwise by theta around v.""",
  "all quaternions, vectors, angles (sampled); as polynomial identities for all reals", """rotate is tested with one quaternion, axis_angle not at all.""",
  ["src/quaternion.rs"], [("rotate", "src/quaternion.rs"), ("axis_angle", "src/quaternion.rs")], observe=["rotate", "axis_angle"])
p("C30", "from_two_vectors rotates the first vector onto the second",
  """For vectors u and v of lengths in [2^-12, 2^17] with an angle of at most 179 degrees between them, from_two_vectors(u, v) has a norm within 7% of 1, and rotates u to the direction of v within 0.02 radians by the smallest rotation (its axis is
  perpendicular to u and v, and w > 0), for all convertible component types (integer vectors whose products do not fit the type included). For exactly opposite vectors it is a half turn (|w| <= 0.01)
  around an axis perpendicular to u, and for parallel vectors it is the identity up to scale, within 0.01.""",
  "all pairs of vectors (sampled: axes, parallel, opposite, nearly opposite, different lengths)", """One pair is tested.""",
  ["src/quaternion.rs"], [("from_two_vectors", "src/quaternion.rs")], observe=["from_two_vectors", "rotate"])
p("C31", "to_euler inverts the roll, pitch, yaw construction",
  """For every unit quaternion q = (w, x, y, z) (up to f32 rounding), to_euler gives pitch = asin(2(wy - xz)) within 0.02, and unless |pitch| is within 0.06 of pi/2, roll = atan2(2(wx + yz), 1 - 2(x^2 + y^2)) and
  yaw = atan2(2(wz + xy), 1 - 2(y^2 + z^2)) within 0.004 modulo 2*pi, in this order. It never gives NaN for unit quaternions, also at a pitch of +-90 degrees.""",
  "all unit quaternions (sampled: all orientations, axes, gimbal lock)", """It is not tested at all.""",
  ["src/quaternion.rs"], [("to_euler", "src/quaternion.rs")], observe=["to_euler"])
p("C32", "num-traits impls of F32 satisfy the contracts of the traits",
  """With the num-traits feature, Zero::zero() is 0 and is_zero() holds exactly for zeros (of either sign), One::one() is 1 and is_one() holds exactly for 1, set_zero() and set_one() leave these values whatever was there, the identities 0 + x = x and 1 * x = x hold for every x, Inv::inv() is the inherent
  inv(), and Num::from_str_radix(s, r) accepts and returns exactly what f32's implementation does.""",
  "every f32; all digit strings and radices (sampled)", """One value of Inv is tested.""",
  ["src/float.rs"], [("Zero, One, Num, Inv for F32", "src/float.rs")], observe=["num_traits"])
p("C33", "Text conversion of F32 is that of f32, and round trips",
  """For every f32, formatting an F32 with {}, {:e} or {:E}, and with the options of the formatter (precision, width, sign, leading zeros, fill, alignment), gives the same text as formatting the f32 (or an error, if the output does not take it), and parsing a text as F32 gives the same number, or an error for the same texts, as parsing it as f32 (so, the nearest one). So parsing the text formatted without precision and width gives back
  the same number, for every non-NaN F32.""",
  "every f32 (sampled over all exponents and special values); texts", """Formatting and parsing are not tested.""",
  ["src/float.rs"], [("Display, LowerExp, UpperExp, FromStr for F32", "src/float.rs")], observe=["format!", "str::parse"])
p("C34", "Every combination of the Cargo features builds, with its documented API",
  """Each of the 32 combinations of the features quaternion, statistics, vector, num-traits and defmt builds without std, and exposes the API of exactly the enabled features: the module statistics, the module vector, Quaternion (with
  its vector functions if vector is enabled too), num_traits and its impls. Features are additive: enabling more of them never removes API or changes a result.""",
  "all 2^5 feature sets", """The tests run with all features enabled, and the build checks three sets.""",
  ["src/lib.rs", "src/quaternion.rs", "Cargo.toml"], [("cfg(feature) gates", "src/lib.rs"), ("cfg(feature = \"vector\") items", "src/quaternion.rs")],
  over=("configurations",), observe=["cargo check"])
p("C35", "defmt output shows the components in order",
  """With the defmt feature, the defmt representation of an F32 is its f32 value, and that of vectors and quaternions consists of all their components, in the order x, y(, z) and w, x, y, z, with their exact values.""",
  "all values (sampled) and component types with defmt support", """Nothing of it is tested.""",
  ["src/float.rs", "src/quaternion.rs", "src/vector/vector2d.rs", "src/vector/vector3d.rs"], [("defmt::Format impls", "src/vector/vector2d.rs")], observe=["defmt logger bytes"])

p("C36", "Vector algebra is generic, for a user's components and vector types, too",
  """Vector2d and Vector3d work with every type that implements Component, as the definitions say, without assumptions about its values: +, -, * and / with their assignment forms and Sum apply the component's own operation to each axis,
  dot, cross, perp_dot and magnitude_sq are the sums of products of their definitions, and nothing else is done to the components (up to the laws of a commutative ring for + - *; comparisons do not change results). Types of a user that implement Vector, with any number of
  axes, get from_slice, iter, map, distance, magnitude_sq, magnitude and normalized with the meaning they have for Vector2d and Vector3d: from_slice builds the vector of the items in order, iter yields all AXES components in order, map applies the function once to each, and the lengths hold within 6.1%.""",
  "all component types and vector types (as free symbols; lengths sampled)", """Tests use primitive components and the two vector types of the crate.""",
  ["src/vector.rs", "src/vector/vector2d.rs", "src/vector/vector3d.rs", "src/vector/iter.rs"], [("trait Vector", "src/vector.rs"), ("trait Component", "src/vector/component.rs")],
  over=("inputs", "programs"), observe=["Component operations", "Vector methods"])

p("C37", "Results depend on the arguments only, not on history or other threads",
  """Every function and operator of the crate (of F32, F32Ext, vectors, quaternions, statistics and conversions) gives, for the same arguments, the same result (bit for bit, any NaN being as good as another; or a panic): whatever calls were made before in the process,
  whether it is the first one, and whatever other threads call at the same time. Nothing is remembered between calls.""",
  "all sequences of calls (words over pairs of 2500 calls; fresh processes), all schedules of threads (sampled)", """Each test makes its calls once, in a fixed order, and compares one result of each.""",
  ["src/float.rs", "src/f32ext.rs", "src/quaternion.rs", "src/vector.rs", "src/statistics.rs"], [("pure functions", "src/float.rs"), ("Copy types without interior state", "src/quaternion.rs")],
  over=("histories", "schedules"), observe=["results of calls"])

p("C38", "Vectors and quaternions compare, copy and print as their components",
  """Two values of Vector2d, Vector3d, Quaternion or F32 are equal (==, with != its negation) exactly if all their components are equal by the component's own == (so 0 == -0, and a value with a NaN equals nothing), for the component types of the crate and of a user. Copies and clones
  (clone_from too) have the components of the original, all default vectors and F32 are zero and the default quaternion is the identity, and the Debug text is the one derived from the definition: the name of the type and the Debug texts of all components in order,
  with the options of the formatter passed on to them.""",
  "all pairs of values, for all component types", """Tests compare values that are equal, or whose difference the test does not look at.""",
  ["src/vector/vector2d.rs", "src/vector/vector3d.rs", "src/quaternion.rs", "src/float.rs"], [("derive(PartialEq, Debug, Clone) for Vector2d", "src/vector/vector2d.rs"), ("derive for Vector3d", "src/vector/vector3d.rs"), ("derive for Quaternion", "src/quaternion.rs")],
  over=("inputs", "histories"), observe=["==", "clone()", "format!"])

p("C39", "Results do not depend on the build, the word size or the byte order",
  """Every function of the crate (F32 and F32Ext, operators, text, vectors, statistics, quaternions) returns the same result for the same arguments in debug and release builds, at every optimisation level, with and without overflow checks, and on
  32 and 64 bit, little and big endian targets; only the bits of NaN may differ, and calls whose integer arithmetic overflows.""",
  "all arguments, builds and targets", """Tests run in one build on one machine, so code that looks at the bytes of a number, at usize, or at debug assertions works there.""",
  ["src/float.rs", "src/float/", "src/vector/", "src/statistics/", "src/quaternion.rs"], [("F32::to_bits, extract_exponent_value, is_even, set_exponent", "src/float.rs"), ("Mean::mean", "src/statistics/mean.rs"), ("Vector::get", "src/vector/vector3d.rs")],
  over=("inputs", "configurations"), observe=["all functions"])

p("C40", "Functions keep the order of their arguments, are symmetric, and do not jump",
  """For all f32 x < y: sqrt, floor, ceil, round and trunc do not fall from x to y; asin, atan, atan_norm, exp, cosh (from 0), ln, log2 and log10 (of positive normal numbers), sin and tan (from -1.56 to 1.56) rise, acos, cos (from 0 to 3.12), invsqrt (from 0), inv and recip (of numbers of one sign; recip of normal ones) fall, with
  setbacks by at most 2^-14 of the value (of 1, for logarithms, sin, cos and acos). f(-x) = -f(x) exactly for round, trunc, fract, signum, inv, recip, atan, atan_norm and asin, within 2^-14 for sin up to 8 and tan up to 1, and f(-x) = f(x) exactly for abs and cosh, within 2^-14 for cos up to 8 (sin and cos: within 2^-11 up to 1000). hypot does not change with the order or the signs of its arguments, and
  atan2(-y, x) = -atan2(y, x) within 2^-14 modulo 2*pi for y other than 0. Neighbouring f32 have close results: within 2^-14 of the value for normal numbers with sqrt, invsqrt, and recip and inv up to 2^125, within 2^-14 for atan, atan_norm and tan (from -1 to 1), 2^-11 for ln, log2, log10, and sin and cos up to 1000, 2^-10 for asin and acos, and 2^-7 of the value for exp and cosh (from -87 to 87).""",
  "all f32 of the domain of each function, and so all pairs of them (order); pairs of arguments of hypot and atan2 (sampled)", """Tests compare single results with expected ones, up to an error that is much larger than the steps between neighbours; no two results are compared.""",
  ["src/float/"], [("F32::sqrt", "src/float/sqrt.rs"), ("F32::atan", "src/float/atan.rs"), ("F32::exp", "src/float/exp.rs"), ("F32::ln", "src/float/ln.rs"), ("F32::sin", "src/float/sin.rs"), ("F32::hypot", "src/float/hypot.rs")],
  observe=["results of two calls"])


out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
