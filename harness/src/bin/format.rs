//! C18: constants, classification, bits and integers of F32 as in spec/Format.tla.
use harness::{out::Report, rows, show, sweep, Args};
use micromath::F32;

fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let table = rows::load(&args.req("rows"));
    // constants
    let c = &table[0];
    for (name, got) in [
        ("ZERO", F32::ZERO),
        ("ONE", F32::ONE),
        ("EPSILON", F32::EPSILON),
        ("MIN", F32::MIN),
        ("MAX", F32::MAX),
        ("MIN_POSITIVE", F32::MIN_POSITIVE),
        ("INFINITY", F32::INFINITY),
        ("NEG_INFINITY", F32::NEG_INFINITY),
        ("NAN", F32::NAN),
        ("DEFAULT", F32::default()),
    ] {
        let v = c.ints(name);
        let want = f32::from_bits((v[0] as u32) << 31 | v[1] as u32);
        if !(want.is_nan() && got.0.is_nan() || want == got.0) {
            rep.violation(format!("F32::{name} is {}, not {}", show(got.0), show(want)));
        }
        rep.count("constants", 1);
    }
    for (name, got) in [
        ("RADIX", F32::RADIX as i64),
        ("MANTISSA_DIGITS", F32::MANTISSA_DIGITS as i64),
        ("DIGITS", F32::DIGITS as i64),
        ("MIN_EXP", F32::MIN_EXP as i64),
        ("MAX_EXP", F32::MAX_EXP as i64),
        ("MIN_10_EXP", F32::MIN_10_EXP as i64),
        ("MAX_10_EXP", F32::MAX_10_EXP as i64),
    ] {
        if got != c.int(name) {
            rep.violation(format!("F32::{name} is {got}, not {}", c.int(name)));
        }
        rep.count("constants", 1);
    }
    // classification of every bit pattern
    let mut class = vec![None; 1024];
    for r in table.iter().filter(|r| r.str("fn") == "class") {
        let b = |k: &str| r.int(k) == 1;
        class[(r.int("s") * 512 + r.int("e") * 2 + r.int("z")) as usize] = Some([b("nan"), b("inf"), b("fin"), b("pos"), b("neg")]);
    }
    let class: Vec<[bool; 5]> = class.into_iter().map(|c| c.unwrap_or_else(|| harness::die("class rows missing"))).collect();
    rep.count("rows", table.len() as u64);
    let want = |b: u32| class[((b >> 31) * 512 + (b >> 23 & 0xff) * 2 + (b & 0x7f_ffff != 0) as u32) as usize];
    let got = |b: u32| {
        let x = F32(f32::from_bits(b));
        [x.is_nan(), x.is_infinite(), x.is_finite(), x.is_sign_positive(), x.is_sign_negative()]
    };
    let keeps = |b: u32| {
        let x = f32::from_bits(b);
        F32(x).to_bits() == b && F32::from_bits(b).0.to_bits() == b && F32::from_bits(b).to_bits() == b && F32::from(x).0.to_bits() == b && f32::from(F32(x)).to_bits() == b
    };
    let (tried, bad) = sweep::sweep(
        1 << 32,
        |j| got(j as u32) == want(j as u32) && keeps(j as u32),
        |j, p| {
            let b = j as u32;
            if p {
                format!("classification or conversion of 0x{b:08x} panics")
            } else if got(b) != want(b) {
                format!("[is_nan, is_infinite, is_finite, is_sign_positive, is_sign_negative] of {} is {:?}, not {:?}", show(f32::from_bits(b)), got(b), want(b))
            } else {
                format!("from_bits, to_bits or conversion from or to f32 do not keep 0x{b:08x}")
            }
        },
    );
    rep.count("inputs", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    // integers
    for r in table.iter().filter(|r| r.str("fn") == "int") {
        let n = r.int("n");
        let want = (r.int("s") as u32) << 31 | r.int("m") as u32;
        let mut test = |name: &str, got: Option<F32>| {
            if got.map(|g| g.0.to_bits()) != Some(want) {
                rep.violation(format!("F32::from({n}{name}) is {got:?}, not {}", show(f32::from_bits(want))));
            }
            rep.count("integers", 1);
        };
        if let Ok(i) = i8::try_from(n) {
            test("i8", sweep::guard(|| F32::from(i)));
        }
        if let Ok(i) = u8::try_from(n) {
            test("u8", sweep::guard(|| F32::from(i)));
        }
        if let Ok(i) = i16::try_from(n) {
            test("i16", sweep::guard(|| F32::from(i)));
        }
        if let Ok(i) = u16::try_from(n) {
            test("u16", sweep::guard(|| F32::from(i)));
        }
    }
    rep.sample(format!("0x00000001 is {:?} ([nan, infinite, finite, positive, negative])", want(1)));
    rep.sample(format!("F32::from(-129i16) has the bits 0x{:08x}", F32::from(-129i16).to_bits()));
    rep.finish()
}
