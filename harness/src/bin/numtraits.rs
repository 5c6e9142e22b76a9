//! C32: the num-traits impls of F32: constants of spec/Format.tla, the laws of spec/Ops.tla, the texts of spec/Text.tla.
use harness::{out::Report, rows, same_bits, same_num, show, sweep, texts, Args, Rng};
use micromath::F32;
use num_traits::{Inv, Num, One, Zero};

fn setters(x: F32) -> (F32, F32) {
    let (mut a, mut b) = (x, x);
    a.set_zero();
    b.set_one();
    (a, b)
}

fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let consts = rows::load(&args.req("format"));
    let table = rows::load(&args.req("texts"));
    let (zero, one) = (consts[0].ints("ZERO")[1] as u32, consts[0].ints("ONE")[1] as u32);
    let t = texts::Texts::new(&table);
    rep.count("rows", table.len() as u64 + 1);
    let mut set = (F32(7.0), F32(7.0));
    set.0.set_zero();
    set.1.set_one();
    for (name, got, want) in [("zero()", F32::zero(), zero), ("one()", F32::one(), one), ("set_zero()", set.0, zero), ("set_one()", set.1, one)] {
        if got.0 != f32::from_bits(want) {
            rep.violation(format!("{name} is {}", show(got.0)));
        }
    }
    let (tried, bad) = sweep::sweep(
        1 << 32,
        |j| {
            let x = f32::from_bits(j as u32);
            let f = F32(x);
            let m = j as u32 & 0x7fff_ffff;
            f.is_zero() == (m == zero)
                && f.is_one() == (j as u32 == one)
                && same_num((f + F32::zero()).0, x)
                && same_num((F32::zero() + f).0, x)
                && same_num((f * F32::one()).0, x)
                && same_num((F32::one() * f).0, x)
                && same_bits(Inv::inv(f).0, F32::inv(f).0)
                && setters(f).0.to_bits() & 0x7fff_ffff == zero
                && setters(f).1.to_bits() == one
        },
        |j, p| {
            let x = f32::from_bits(j as u32);
            let f = F32(x);
            if p {
                format!("a num-traits function of {} panics", show(x))
            } else {
                format!(
                    "{}: is_zero {}, is_one {}, + zero {}, * one {}, Inv::inv {}, inv {}, after set_zero() {}, after set_one() {}",
                    show(x),
                    f.is_zero(),
                    f.is_one(),
                    show((f + F32::zero()).0),
                    show((f * F32::one()).0),
                    show(Inv::inv(f).0),
                    show(F32::inv(f).0),
                    show(setters(f).0 .0),
                    show(setters(f).1 .0)
                )
            }
        },
    );
    rep.count("inputs", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    // texts in all radices
    let both = |s: &str, r: u32| (sweep::guard(|| F32::from_str_radix(s, r).map(|x| x.0).ok()), sweep::guard(|| <f32 as Num>::from_str_radix(s, r).ok()));
    let like = |s: &str, r: u32| match both(s, r) {
        (Some(Some(a)), Some(Some(b))) => same_bits(a, b),
        (a, b) => a.is_none() == b.is_none() && a.flatten().is_none() && b.flatten().is_none(),
    };
    let digits = |j: u64| -> (String, u32) {
        let mut g = Rng::new(args.seed() ^ (j << 16), 32);
        let r = match j % 4 {
            0 => 10,
            1 => 16,
            2 => 2,
            _ => g.range(2, 36) as u32,
        };
        if r == 10 && j % 8 == 0 {
            return (t.random(&mut g), r);
        }
        let mut s = String::new();
        if g.below(3) == 0 {
            s.push(g.pick(&['-', '+']));
        }
        for _ in 0..g.below(20) {
            let d = char::from_digit(g.below(r as u64) as u32, r).unwrap();
            s.push(if g.below(2) == 0 { d.to_ascii_uppercase() } else { d });
            if g.below(9) == 0 {
                s.push(g.pick(&['.', '.', '.', '-', 'z', ' ', '_', 'e', 'p']));
            }
        }
        if g.below(20) == 0 {
            s = g.pick(&["inf", "-inf", "NaN", "infinity", "", "+", "-"]).to_string();
        }
        (s, r)
    };
    for (s, _) in &t.list {
        rep.count("texts", 1);
        if !like(s, 10) {
            rep.violation(format!("from_str_radix({s:?}, 10) is {:?} (F32) and {:?} (f32)", both(s, 10).0, both(s, 10).1));
        }
    }
    let n = if args.thorough() { 1 << 26 } else { 1 << 21 };
    let (tried, bad) = sweep::sweep(
        n,
        |j| {
            let (s, r) = digits(j);
            like(&s, r)
        },
        |j, _| {
            let (s, r) = digits(j);
            format!("from_str_radix({s:?}, {r}) is {:?} (F32) and {:?} (f32)", both(&s, r).0, both(&s, r).1)
        },
    );
    rep.count("texts", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    for j in 8..12 {
        let (s, r) = digits(j);
        rep.sample(format!("from_str_radix({s:?}, {r}) = {:?}", both(&s, r).0));
    }
    rep.finish()
}
