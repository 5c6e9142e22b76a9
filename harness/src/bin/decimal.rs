//! C33: records texts read and written by F32, for spec/DecimalTrace.tla.
//! --events: how many; --rows: those of spec/Text.tla; --trace: where to write.
use harness::{delicate::num, out::Report, rows, same_bits, show, sweep, texts, Args, Rng};
use micromath::F32;
use std::fmt::Write;

fn chars(t: &str) -> String {
    format!("[{}]", t.chars().map(|c| format!("\"{c}\"")).collect::<Vec<_>>().join(","))
}
/// form, precision, plus, width, zeros, fill and alignment (one of ALIGN), and the flag #, which means nothing
type Options = (usize, Option<usize>, bool, usize, bool, usize, bool);
const ALIGN: [(&str, &str); 12] = [(" ", ""), (" ", "<"), (" ", "^"), (" ", ">"), ("*", "<"), ("*", "^"), ("*", ">"), ("0", "<"), ("-", "^"), ("_", ">"), ("0", "^"), ("1", ">")];
macro_rules! formatted {
    ($x:expr, $o:expr) => {{
        let (x, (form, p, plus, w, zeros, align, alt)) = ($x, $o);
        macro_rules! go {
            ($a:literal, $f:literal, $e:literal) => {
                match p {
                    None => format!(concat!("{:", $a, $f, "w$", $e, "}"), x, w = w),
                    Some(p) => format!(concat!("{:", $a, $f, "w$.p$", $e, "}"), x, w = w, p = p),
                }
            };
        }
        macro_rules! flags {
            ($a:literal, $e:literal) => {
                match (plus, alt, zeros) {
                    (false, false, false) => go!($a, "", $e),
                    (true, false, false) => go!($a, "+", $e),
                    (false, true, false) => go!($a, "#", $e),
                    (true, true, false) => go!($a, "+#", $e),
                    (false, false, true) => go!($a, "0", $e),
                    (true, false, true) => go!($a, "+0", $e),
                    (false, true, true) => go!($a, "#0", $e),
                    (true, true, true) => go!($a, "+#0", $e),
                }
            };
        }
        macro_rules! aligned {
            ($e:literal) => {
                match align {
                    0 => flags!("", $e),
                    1 => flags!("<", $e),
                    2 => flags!("^", $e),
                    3 => flags!(">", $e),
                    4 => flags!("*<", $e),
                    5 => flags!("*^", $e),
                    6 => flags!("*>", $e),
                    7 => flags!("0<", $e),
                    8 => flags!("-^", $e),
                    9 => flags!("_>", $e),
                    10 => flags!("0^", $e),
                    _ => flags!("1>", $e),
                }
            };
        }
        match form {
            0 if w == 0 && p.is_none() && !plus && !alt => format!("{}", x),
            1 if w == 0 && p.is_none() && !plus && !alt => format!("{:e}", x),
            2 if w == 0 && p.is_none() && !plus && !alt => format!("{:E}", x),
            0 => aligned!(""),
            1 => aligned!("e"),
            _ => aligned!("E"),
        }
    }};
}
fn options(g: &mut Rng) -> Options {
    let form = g.below(3) as usize;
    if g.below(2) == 0 {
        return (form, None, false, 0, false, 0, false);
    }
    let p = if g.below(2) == 0 { None } else { Some({ let top = g.pick(&[9, 9, 9, 60]); g.below(top) as usize }) };
    let w = if g.below(2) == 0 { 0 } else { let top = g.pick(&[24, 24, 24, 120]); g.below(top) as usize };
    (form, p, g.below(3) == 0, w, w > 0 && g.below(3) == 0, g.below(ALIGN.len() as u64) as usize, g.below(8) == 0)
}
/// The exact decimal expansion of the midpoint above |x|, and texts a little off
fn midpoint(g: &mut Rng, x: f32) -> String {
    let a = x.abs().to_bits().min(0x7f7f_ffff);
    let up = |b: u32| if b == 0x7f80_0000 { 340282366920938463463374607431768211456.0 } else { f32::from_bits(b) as f64 };
    let m = (up(a) + up(a + 1)) / 2.0;
    let mut t = if g.below(2) == 0 { format!("{m:.160}") } else { format!("{m:.150e}") };
    if let Some(at) = t.find('e') {
        let (d, e) = t.split_at(at);
        t = format!("{}{}", d.trim_end_matches('0'), e);
    } else {
        t = t.trim_end_matches('0').to_string();
    }
    let at = t.find('e').unwrap_or(t.len());
    match g.below(4) {
        // a little more
        0 => t.insert_str(at, if t.contains('.') { "00001" } else { ".00001" }),
        1 => t.insert_str(at, if t.contains('.') { "000" } else { ".000" }),
        // a little less: the last nonzero digit
        2 => {
            let i = t[..at].rfind(|c: char| c.is_ascii_digit() && c != '0').unwrap();
            let c = (t.as_bytes()[i] - 1) as char;
            t.replace_range(i..i + 1, &c.to_string());
            t.insert_str(at, if t.contains('.') { "9999" } else { ".9999" });
        }
        _ => {}
    }
    if x.is_sign_negative() {
        t.insert(0, '-');
    }
    t
}

fn main() {
    let args = Args::get();
    sweep::quiet();
    let mut rep = Report::default();
    let t = texts::Texts::new(&rows::load(&args.req("rows")));
    let count: u64 = args.opt("events").map_or(4_000, |s| s.parse().unwrap()) * if args.thorough() { 20 } else { 1 };
    let mut out = String::new();
    let names = ["plain", "e", "E"];
    let mut events = 0;
    let parse = |s: &str| sweep::guard(|| s.parse::<F32>().map(|r| r.0).ok());
    let read = |rep: &mut Report, s: &str, c: bool, shortest: bool| -> Option<String> {
        let Some(r) = parse(s) else {
            rep.violation(format!("parsing {s:?} panics"));
            return None;
        };
        let b = r.map_or(0, |x| x.to_bits());
        if r.is_some() != s.parse::<f32>().is_ok() || !same_bits(r.unwrap_or(0.0), s.parse::<f32>().unwrap_or(0.0)) {
            rep.violation(format!("{s:?} is {r:?} as F32, and {:?} as f32", s.parse::<f32>()));
        }
        Some(format!("{{\"fn\":\"parse\",\"c\":{},\"shortest\":{},\"t\":{},\"r\":{{\"ok\":{},\"s\":{},\"m\":{}}}}}\n", c as u8, shortest as u8, chars(s), r.is_some() as u8, b >> 31, b & 0x7fff_ffff))
    };
    let format = |rep: &mut Report, x: f32, o: Options| -> Option<(String, String)> {
        let Some(s) = sweep::guard(|| formatted!(F32(x), o)) else {
            rep.violation(format!("formatting {} with {o:?} panics", show(x)));
            return None;
        };
        if s != formatted!(x, o) {
            rep.violation(format!("{} is {s:?} with (form, precision, plus, width, zeros, alignment, #) {o:?}, but {:?} as f32", show(x), formatted!(x, o)));
        }
        if !s.chars().all(|c| c.is_ascii_graphic() || c == ' ') {
            rep.violation(format!("{} is {s:?}", show(x)));
            return None;
        }
        let e = format!(
            "{{\"fn\":\"format\",\"x\":{},\"form\":\"{}\",\"p\":{},\"plus\":{},\"w\":{},\"zeros\":{},\"fill\":\"{}\",\"align\":\"{}\",\"t\":{}}}\n",
            num(x), names[o.0], o.1.map_or(-1, |p| p as i64), o.2 as u8, o.3, o.4 as u8, ALIGN[o.5].0, ALIGN[o.5].1, chars(&s)
        );
        Some((s, e))
    };
    // all combinations of options, for numbers of each class
    let classes = [f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -f32::NAN, 0.0, -0.0, 1.0, -1.0, 0.1, -2.5e-10, 16777216.0, 1e-45, -3.4e38, 1e15, 0.999];
    let mut combination = 0u64;
    for x in classes {
        for k in 0..3 * 5 * 2 * 5 * 2 * ALIGN.len() * 2 {
            let mut k = k;
            let mut of = |n: usize| {
                let r = k % n;
                k /= n;
                r
            };
            let o: Options = (of(3), [None, Some(0), Some(1), Some(3), Some(12)][of(5)], of(2) == 1, [0, 1, 4, 9, 30][of(5)], of(2) == 1, of(ALIGN.len()), of(2) == 1);
            combination += 1;
            if o.3 == 0 && (o.4 || o.5 > 0) {
                continue;
            }
            let Some((_, e)) = format(&mut rep, x, o) else { break };
            // some of them for the history; those without digits have short texts
            if Rng::new(args.seed(), combination).below(if x.is_finite() { 120 } else { 30 }) == 0 {
                out += &e;
            }
        }
    }
    rep.count("combinations of options", combination);
    let mut j = 0;
    while events < count {
        j += 1;
        let mut g = Rng::new(args.seed(), 5100 + j);
        let x = if g.below(24) == 0 { g.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -f32::NAN, 0.0, -0.0]) } else { texts::number(g.next(), args.seed()) };
        match g.below(4) {
            0 | 1 => {
                let o = options(&mut g);
                let Some((s, e)) = format(&mut rep, x, o) else { break };
                out += &e;
                events += 1;
                // and back
                if s.trim() == s && (o.3 == 0 || (if o.4 { x.is_finite() } else { o.5 < 4 })) {
                    if let Some(e) = read(&mut rep, &s, true, o.1.is_none()) {
                        out += &e;
                        events += 1;
                    }
                }
            }
            2 => {
                if let Some(e) = read(&mut rep, &midpoint(&mut g, x), false, false) {
                    out += &e;
                    events += 1;
                }
            }
            _ => {
                let s = t.random(&mut g);
                // the history is for texts of plain characters
                if s.chars().all(|c| c.is_ascii() && c as u32 >= 32) {
                    if let Some(e) = read(&mut rep, &s, false, false) {
                        out += &e;
                        events += 1;
                    }
                }
            }
        }
    }
    rep.count("conversions", events);
    std::fs::write(args.req("trace"), &out).unwrap_or_else(|e| harness::die(&format!("{e}")));
    rep.finish()
}
