//! C33: parsing and formatting of F32 by the grammar of spec/Text.tla, and as f32 does it.
use harness::{out::Report, rows, same_bits, show, sweep, texts, Args, Rng};
use micromath::F32;

fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let table = rows::load(&args.req("rows"));
    let t = texts::Texts::new(&table);
    rep.count("rows", table.len() as u64);
    // every row: accepted or not, and the number
    let parse = |s: &str| sweep::guard(|| s.parse::<F32>().map(|x| x.0));
    let like_f32 = |s: &str| match (parse(s), s.parse::<f32>()) {
        (Some(Ok(a)), Ok(b)) => same_bits(a, b),
        (Some(Err(_)), Err(_)) => true,
        _ => false,
    };
    for r in table.iter().filter(|r| r.str("fn") == "text") {
        let s = r.str("t");
        let valid = t.valid(s);
        let ok = match parse(s) {
            None => false,
            Some(Err(_)) => !valid,
            Some(Ok(x)) => {
                valid
                    && match r.str("q") {
                        "nan" => x.is_nan(),
                        "inf" | "infinity" => x.is_infinite() && x.is_sign_negative() == (r.int("neg") == 1),
                        _ => {
                            let want = if r.int("m") == 0 { 0.0 } else { r.int("m") as f64 * 10f64.powi(r.int("e").clamp(-400, 300) as i32) };
                            let near = (x.abs() as f64 - want).abs() <= want * 1e-7 + 1e-45;
                            x.is_sign_negative() == (r.int("neg") == 1) && (near || want > 3.40282347e38 && x.is_infinite())
                        }
                    }
            }
        };
        rep.count("texts", 1);
        if !ok || !like_f32(s) {
            rep.violation(format!("{s:?} parses to {:?} as F32 and {:?} as f32; the grammar {} it", parse(s), s.parse::<f32>(), if valid { "allows" } else { "forbids" }));
        }
    }
    // random texts
    let n = if args.thorough() { 1 << 24 } else { 1 << 19 };
    let text = |j: u64| t.random(&mut Rng::new(args.seed() ^ (j << 16), 33));
    let (tried, bad) = sweep::sweep(
        n,
        |j| {
            let s = text(j);
            matches!(parse(&s), Some(r) if r.is_ok() == t.valid(&s)) && like_f32(&s)
        },
        |j, _| format!("{:?} parses to {:?} as F32 and {:?} as f32; scanner: {}", text(j), parse(&text(j)), text(j).parse::<f32>(), t.scan(&text(j))),
    );
    rep.count("texts", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    // formatting
    let n = if args.thorough() { 1 << 32 } else { 1 << 26 };
    let at = |j: u64| if args.thorough() { f32::from_bits(j as u32) } else { texts::number(j, args.seed()) };
    let forms = |x: f32| [format!("{}", F32(x)), format!("{:e}", F32(x)), format!("{:E}", F32(x))];
    let want = |x: f32| [format!("{}", x), format!("{:e}", x), format!("{:E}", x)];
    // the same text, without allocations
    struct Buf([u8; 256], usize, usize);
    impl std::fmt::Write for Buf {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            let end = self.1 + s.len();
            if end > self.2 {
                return Err(std::fmt::Error);
            }
            self.0[self.1..end].copy_from_slice(s.as_bytes());
            self.1 = end;
            Ok(())
        }
    }
    let same = |x: f32| {
        use std::fmt::Write;
        let (mut a, mut b) = (Buf([0; 256], 0, 256), Buf([0; 256], 0, 256));
        let (mut ok, mut at) = (true, 0);
        for k in 0..3 {
            let r = match k {
                0 => write!(a, "{}", F32(x)).and(write!(b, "{x}")),
                1 => write!(a, "{:e}", F32(x)).and(write!(b, "{x:e}")),
                _ => write!(a, "{:E}", F32(x)).and(write!(b, "{x:E}")),
            };
            ok &= r.is_ok() && a.0[at..a.1] == b.0[at..b.1];
            if !ok {
                return false;
            }
            // the text is one of a number, and that number
            let s = std::str::from_utf8(&a.0[at..a.1]).unwrap();
            ok &= matches!(s.parse::<F32>(), Ok(y) if same_bits(x, y.0));
            at = a.1;
        }
        ok
    };
    let (tried, bad) = sweep::sweep(
        n,
        |j| {
            let x = at(j);
            same(x) && (j & 63 != 0 || forms(x).iter().all(|s| t.valid(s)))
        },
        |j, p| {
            let x = at(j);
            if p {
                format!("formatting {} panics", show(x))
            } else {
                let back: Vec<_> = forms(x).iter().map(|s| s.parse::<F32>()).collect();
                format!("{} is formatted as {:?} (F32) and {:?} (f32), which parses to {back:?}", show(x), forms(x), want(x))
            }
        },
    );
    rep.count("formatted", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    // into a buffer that is too short: an error, whose text is the beginning of the whole one
    let n = if args.thorough() { 1 << 26 } else { 1 << 21 };
    let short = |x: f32, k: usize, room: usize| {
        use std::fmt::Write;
        let mut b = Buf([0; 256], 0, room);
        let r = match k {
            0 => write!(b, "{}", F32(x)),
            1 => write!(b, "{:e}", F32(x)),
            2 => write!(b, "{:E}", F32(x)),
            3 => write!(b, "{:12.3}", F32(x)),
            4 => write!(b, "{:+012e}", F32(x)),
            _ => write!(b, "{:_^12.2E}", F32(x)),
        };
        (r.is_ok(), String::from_utf8_lossy(&b.0[..b.1]).to_string())
    };
    let whole = |x: f32, k: usize| match k {
        0 => format!("{}", x),
        1 => format!("{:e}", x),
        2 => format!("{:E}", x),
        3 => format!("{:12.3}", x),
        4 => format!("{:+012e}", x),
        _ => format!("{:_^12.2E}", x),
    };
    let pick = |j: u64| {
        let mut g = Rng::new(args.seed() ^ (j << 16), 34);
        let (x, k) = (texts::number(g.next(), args.seed()), g.below(6) as usize);
        let w = whole(x, k);
        let room = (if g.below(3) == 0 { w.len() } else { g.below(w.len() as u64 + 1) as usize }).min(256);
        (x, k, w, room)
    };
    let (tried, bad) = sweep::sweep(
        n,
        |j| {
            let (x, k, w, room) = pick(j);
            let (ok, t) = short(x, k, room);
            ok == (w.len() <= room) && w.starts_with(&t) && (!ok || t == w)
        },
        |j, p| {
            let (x, k, w, room) = pick(j);
            if p {
                format!("formatting {} into a buffer for {room} bytes panics", show(x))
            } else {
                format!("{} is {w:?}; into a buffer for {room} bytes: (ok, text) = {:?}", show(x), short(x, k, room))
            }
        },
    );
    rep.count("short buffers", tried);
    bad.into_iter().for_each(|(_, b)| rep.violation(b));
    for x in [0.1f32, -2.5e-10] {
        rep.sample(format!("{x:?} is formatted as {:?}", sweep::guard(|| forms(x))));
    }
    for j in 0..4 {
        rep.sample(format!("{:?} is {}", text(j), t.scan(&text(j))));
    }
    rep.finish()
}
