"""Conformance of what depends on Cargo features: the wire format of defmt (C35), and the API of the feature sets (C34)."""
import json, os, re, struct, subprocess

VERIF = os.path.dirname(os.path.abspath(__file__))
FEATURES = os.path.join(VERIF, "features")
PRIM = {"u8": "<B", "i8": "<b", "u16": "<H", "i16": "<h", "u32": "<I", "i32": "<i", "f32": "<f", "u64": "<Q", "i64": "<q", "f64": "<d"}


class Garbled(Exception):
    """The bytes are not what defmt's format strings say"""


# --- defmt ---
def strings(exe):
    """The format strings of a program, by the low 16 bits of their symbol's address: {id: (tag, text)}; and the address of _defmt_acquire"""
    out = subprocess.run(["nm", exe], capture_output=True, text=True, check=True).stdout
    ids, acquire = {}, None
    for line in out.splitlines():
        m = re.match(r"([0-9a-f]+) \w (.*)", line)
        if not m:
            continue
        if m.group(2) == "_defmt_acquire":
            acquire = int(m.group(1), 16)
        elif m.group(2).startswith('{"'):
            try:
                j = json.loads(m.group(2))
            except ValueError:
                continue
            if "tag" in j and "data" in j:
                ids[int(m.group(1), 16)] = (j["tag"], j["data"])
    return ids, acquire


def placeholders(text):
    """The placeholders of a format string in the order of the text: [(index, type or None)]"""
    text = text.replace("{{", "").replace("}}", "")
    found, following = [], 0
    for m in re.finditer(r"\{(\d+)?(?:=([^:}]+))?(?::[^}]*)?\}", text):
        ty = m.group(2)
        if m.group(1) is None:
            found.append((following, ty))
            following += 1
        else:
            found.append((int(m.group(1)), ty))
    return [(i, None if ty in (None, "?") else ty) for i, ty in found]


class Decoder:
    """Splits the bytes of a logged value into tokens (see spec/Defmt.tla)"""

    def __init__(self, ids, data):
        self.ids, self.data, self.at, self.tokens = ids, data, 0, []

    def take(self, n):
        if self.at + n > len(self.data):
            raise Garbled("the bytes end early")
        self.at += n
        return self.data[self.at - n:self.at]

    def word(self):
        return struct.unpack("<H", self.take(2))[0]

    def number(self, ty):
        raw = self.take(struct.calcsize(PRIM[ty]))
        v = int.from_bytes(raw, "little", signed=ty[0] == "i")
        if ty in ("u32", "f32"):
            v = int.from_bytes(raw, "little", signed=True)
        if not -2**31 <= v < 2**31:
            raise Garbled(f"a number that does not fit: {v}")
        self.tokens.append({"e": "num", "ty": ty, "v": v})

    def typed(self, ty):
        if ty in PRIM:
            self.number(ty)
        elif ty == "__internal_FormatSequence":
            self.sequence()
        elif re.fullmatch(r"\[\?;\s*\d+\]", ty):
            n = int(re.findall(r"\d+", ty)[0])
            self.many(self.tag(), n)
        elif ty == "[?]":
            n = struct.unpack("<I", self.take(4))[0]
            self.many(self.tag(), n)
        elif re.fullmatch(r"\[\w+;\s*\d+\]", ty):
            name, n = re.fullmatch(r"\[(\w+);\s*(\d+)\]", ty).groups()
            self.many(name, int(n))
        else:
            self.format(ty)

    def many(self, ty, n):
        """Elements: a nested value with one write"""
        self.tokens += [{"e": "seq"}, {"e": "write", "order": list(range(1, n + 1))}]
        for _ in range(n):
            self.typed(ty)
        self.tokens.append({"e": "end"})

    def tag(self):
        """The format string of the type of an argument, without its braces if it is a primitive"""
        i = self.word()
        if i not in self.ids:
            raise Garbled(f"unknown type {i:#x}")
        text = self.ids[i][1]
        m = re.fullmatch(r"\{=([^:}]+)\}", text)
        return m.group(1) if m else text

    def format(self, text):
        """What a derived implementation has written: the arguments of the format string, once"""
        self.tokens.append({"e": "seq"})
        self.write(text)
        self.tokens.append({"e": "end"})

    def write(self, text):
        holes = placeholders(text)
        args = {}
        for i, ty in holes:
            args[i] = args.get(i) or ty
        if sorted(args) != list(range(len(args))):
            raise Garbled(f"format string {text!r}")
        self.tokens.append({"e": "write", "order": [i + 1 for i, _ in holes]})
        for i in sorted(args):
            self.typed(args[i] or self.tag())

    def sequence(self):
        self.tokens.append({"e": "seq"})
        while True:
            i = self.word()
            if i == 0:
                break
            if i not in self.ids:
                raise Garbled(f"unknown format string {i:#x}")
            self.write(self.ids[i][1])
        self.tokens.append({"e": "end"})

    def value(self):
        self.typed(self.tag())
        if self.at != len(self.data):
            raise Garbled(f"{len(self.data) - self.at} bytes too many")
        # a value that is written as a bare number
        if self.tokens[0]["e"] == "num":
            self.tokens = [{"e": "seq"}, {"e": "write", "order": [1]}, *self.tokens, {"e": "end"}]
        return self.tokens


def cargo(run, crate, *args, timeout=800):
    target = os.path.join(FEATURES, crate, "target")
    return run.run(["cargo", "build", "--release", "--offline", "--quiet", "--target-dir", target, *args], timeout, cwd=os.path.join(FEATURES, crate))


def encode(run, n):
    """The logged values as a history for DefmtTrace: returns its name"""
    r = cargo(run, "encode")
    if r.returncode != 0:
        if "could not compile `micromath`" in r.stderr:
            run.violations.append("the crate does not build with the features quaternion, vector and defmt: " + r.stderr[-800:])
        elif "could not compile `encode`" in r.stderr:
            run.violations.append("values cannot be logged any more: " + "; ".join([l for l in r.stderr.splitlines() if l.startswith("error")][:5]))
        else:
            run.broken("building features/encode failed:\n" + r.stderr[-2000:])
        return None
    exe = os.path.join(FEATURES, "encode", "target", "release", "encode")
    r = run.run([exe, str(run.seed), str(n)], 300)
    if r.returncode != 0:
        run.violations.append(f"logging a value fails: {r.stderr[-500:]}")
        return None
    lines = r.stdout.splitlines()
    ids, acquire = strings(exe)
    slide = int(lines[0].split()[1]) - acquire
    ids = {(a + slide) & 0xFFFF: s for a, s in ids.items()}
    name, kinds = "defmt-history.ndjson", {}
    with open(run.path(name), "w") as f:
        for line in lines[1:]:
            kind, ty, comps, data = (line.split(" ") + [""])[:4]
            try:
                tokens = Decoder(ids, bytes.fromhex(data)).value()
            except Garbled as e:
                run.violations.append(f"the defmt representation of {kind} of {ty} [{comps}] cannot be read: {e} ({data})")
                continue
            for ev in [{"e": "value", "kind": kind, "ty": ty, "comps": [int(c) for c in comps.split(",")]}, *tokens]:
                f.write(json.dumps(ev) + "\n")
            kinds[f"logged_{kind}_{ty}"] = kinds.get(f"logged_{kind}_{ty}", 0) + 1
            if kinds[f"logged_{kind}_{ty}"] == 1 and len(run.samples) < 40:
                run.samples.append(f"{kind} of {ty} [{comps}]: {data}")
    run.counts.update(kinds)
    run.histories = sum(kinds.values())
    return name


# --- feature sets ---
# Programs that name each of the items of spec/Features.tla
IMPLS_OF_VECTORS = """use micromath::{vector::*, F32}; use core::{ops::*, iter::*};
pub fn p() { f::<i8>(); f::<i16>(); f::<i32>(); f::<u8>(); f::<u16>(); f::<u32>(); f::<f32>(); f::<F32>();
             k::<i8>(); k::<i16>(); k::<i32>(); k::<u8>(); k::<u16>(); k::<u32>(); k::<f32>(); k::<F32>() }
fn f<C: Component + Unpin + 'static>() { g::<C, Vector$Nd<C>>(); h::<C, $T>(); h::<C, [C; $N]>() }
fn g<C: Component, V: Vector<C> + Default + PartialEq + core::fmt::Debug + Unpin + Index<usize, Output = C> + Add<Output = V> + AddAssign + Sub<Output = V> + SubAssign + Mul<C, Output = V> + Mul<V, Output = Vector3d<C>>
   + MulAssign<C> + Div<C, Output = V> + DivAssign<C> + Sum + for<'a> Sum<&'a V> + From<$T> + From<[C; $N]>$E>() {}
fn h<C: Component, T: From<Vector$Nd<C>>>() {}
fn k<C: Component + Mul<Vector$Nd<C>, Output = Vector$Nd<C>>>() {}"""
OPS = " + ".join(f"{o}<$T, Output = F32>" for o in ("Add", "Sub", "Mul", "Div", "Rem"))
ASSIGN = " + ".join(f"{o}Assign<$T>" for o in ("Add", "Sub", "Mul", "Div"))
PROBES = {
    "impls of F32": "use micromath::F32; use core::{fmt::*, ops::*, iter::*, str::FromStr}; pub fn p() { f::<F32>(); g::<f32>() } fn f<T: Copy + Clone + Debug + Display + LowerExp + UpperExp + Default + FromStr + Send + Sync + Unpin "
                    "+ PartialEq + PartialOrd + PartialEq<f32> + PartialOrd<f32> + From<f32> + From<i8> + From<i16> + From<u8> + From<u16> + Neg<Output = F32> + Sum + Product "
                    "+ RemAssign<F32> + RemAssign<f32> + " + OPS.replace("$T", "F32") + " + " + OPS.replace("$T", "f32") + " + " + ASSIGN.replace("$T", "F32") + " + " + ASSIGN.replace("$T", "f32") + ">() {} "
                    "fn g<T: From<F32> + PartialEq<F32> + PartialOrd<F32> + " + OPS.replace("$T", "F32") + " + " + ASSIGN.replace("$T", "F32") + ">() {}",
    "limits of F32": "use micromath::F32; pub const P: (u32, u32, u32) = (F32::RADIX, F32::MANTISSA_DIGITS, F32::DIGITS); pub const E: [i32; 4] = [F32::MIN_EXP, F32::MAX_EXP, F32::MIN_10_EXP, F32::MAX_10_EXP];",
    "classes and bits of F32": "use micromath::F32; pub fn p(x: F32) -> bool { x.is_nan() || x.is_infinite() || x.is_finite() || x.is_sign_positive() || x.is_sign_negative() || F32::from_bits(x.to_bits()) == x }",
    "methods of F32": "use micromath::F32; pub fn p(x: F32, y: F32) -> F32 { let (s, c) = x.sin_cos(); x.abs() + x.asin() + x.atan() + x.atan_norm() + x.atan2(y) + x.ceil() + x.copysign(y) + x.cos() + x.cosh() + x.div_euclid(y) + x.exp() + x.floor() "
                      "+ x.fract() + x.hypot(y) + x.inv() + x.invsqrt() + x.ln() + x.log(y) + x.log2() + x.log10() + x.mul_add(y, x) + x.powf(y) + x.powi(3) + x.recip() + x.rem_euclid(y) + x.round() + x.signum() + x.sin() + s + c + x.sqrt() + x.tan() + x.trunc() }",
    "methods of F32Ext": "use micromath::F32Ext; pub fn p<T: F32Ext + Copy>(x: T, y: f32) -> f32 { let (s, c) = x.sin_cos(); x.abs() + x.acos() + x.asin() + x.atan() + x.atan_norm() + x.atan2(y) + x.atan2_norm(y) + x.ceil() + x.copysign(y) + x.cos() + x.div_euclid(y) "
                         "+ x.exp() + x.floor() + x.fract() + x.hypot(y) + x.inv() + x.invsqrt() + x.ln() + x.log(y) + x.log2() + x.log10() + x.mul_add(y, y) + x.powf(y) + x.powi(3) + x.recip() + x.rem_euclid(y) + x.round() + x.signum() + x.sin() + s + c + x.sqrt() + x.tan() + x.trunc() }",
    "impls of Quaternion": "use micromath::Quaternion as Q; use core::ops::*; pub fn p() { f::<Q>(); g::<f32>(); h::<[f32; 4]>(); h::<(f32, f32, f32, f32)>() } fn f<T: Copy + Clone + core::fmt::Debug + Default + PartialEq + Send + Sync + Unpin "
                           "+ Add<Output = Q> + AddAssign + Sub<Output = Q> + SubAssign + Mul<Output = Q> + Mul<f32, Output = Q> + MulAssign<f32> + From<[f32; 4]> + From<(f32, f32, f32, f32)>>() {} fn g<T: Mul<Q, Output = Q>>() {} fn h<T: From<Q>>() {}",
    "Quaternion::new const": "pub const P: micromath::Quaternion = micromath::Quaternion::new(1.0, 0.0, 2.0, 0.0); pub const I: micromath::Quaternion = micromath::Quaternion::IDENTITY;",
    "Quaternion methods": "pub fn p(q: &micromath::Quaternion) -> f32 { let a: [f32; 4] = q.to_array(); q.w() + q.x() + q.y() + q.z() + a[0] + q.scale(2.0f32).scale(2u8).scale(micromath::F32(1.0)).w() }",
    "statistics for all samples": "use micromath::{F32, statistics::*}; pub const T: f32 = trim::DEFAULT_THRESHOLD; pub fn p(a: &[i8], b: &[u8], c: &[i16], d: &[u16], e: &[F32], i: core::iter::Cloned<core::slice::Iter<'_, f32>>) -> f32 "
                                  "{ a.variance() + b.stddev() + c.variance() + d.stddev() + e.variance() + e.stddev() + f32::from(a.trim().next().unwrap()) + f32::from(b.trim_at(1.0).count() as u8) + f32::from(e.trim().next().unwrap()) + i.mean() "
                                  "+ k(trim::Iter::new(c, 2.0)) } fn k<T: Iterator<Item = i16> + Send>(t: T) -> f32 { t.map(f32::from).mean() }",
    "num_traits impls": "use micromath::num_traits::*; pub fn p() { f::<micromath::F32>() } fn f<T: Num + Zero + One + Inv<Output = micromath::F32>>() {}",
    "F32": "pub fn p(x: micromath::F32) -> f32 { x.sqrt().0 }",
    "F32Ext": "pub fn p<T: micromath::F32Ext>(x: T) -> f32 { x.sqrt() }",
    "F32 constants": "pub const P: [micromath::F32; 10] = [micromath::F32::ZERO, micromath::F32::ONE, micromath::F32::EPSILON, micromath::F32::MIN, "
                     "micromath::F32::MIN_POSITIVE, micromath::F32::MAX, micromath::F32::NAN, micromath::F32::INFINITY, micromath::F32::NEG_INFINITY, micromath::F32(1.0)];",
    "F32Ext for f32": "pub fn p(x: f32) -> f32 { micromath::F32Ext::sin(x) }",
    "statistics::Mean": "pub fn p<T: micromath::statistics::Mean>(x: T) -> T::Result { x.mean() }",
    "statistics::Variance": "pub fn p<T: micromath::statistics::Variance>(x: T) -> T::Result { x.variance() }",
    "statistics::StdDev": "pub fn p<T: micromath::statistics::StdDev>(x: T) -> T::Result { x.stddev() }",
    "statistics::Trim": "pub fn p<T: micromath::statistics::Trim>(_: T) {}",
    "statistics::trim": "pub fn p(x: &[f32]) -> micromath::statistics::trim::Iter<'_, f32> "
                        "{ micromath::statistics::trim::Iter::new(x, micromath::statistics::trim::DEFAULT_THRESHOLD) }",
    "Mean for iterators of F32": "pub fn p(x: [micromath::F32; 3]) -> f32 { micromath::statistics::Mean::mean(x.iter().map(|x| x.0)) }",
    "StdDev and Trim for slices": "use micromath::statistics::{StdDev, Trim}; pub fn p(x: &[f32]) -> f32 { x.stddev() + x.trim().next().unwrap_or(0.0) }",
    "vector::Vector2d": "pub fn p(x: i8, y: i8) -> i8 { let v = micromath::vector::Vector2d { x, y }; v.dot(v) }",
    "vector::Vector3d": "pub fn p(x: f32, y: f32, z: f32) -> f32 { let v = micromath::vector::Vector3d { x, y, z }; v.cross(v).x }",
    "vector::Component": "pub fn p<C: micromath::vector::Component>(x: C) -> C { x }",
    "vector::Vector": "pub fn p<C: micromath::vector::Component, V: micromath::vector::Vector<C>>(v: V) -> Option<C> { v.get(V::AXES) }",
    "vector::Iter": "pub fn p<'a, C: micromath::vector::Component, V: micromath::vector::Vector<C>>(mut i: micromath::vector::Iter<'a, V, C>) -> Option<C> { i.next() }",
    "aliases of Vector2d": "pub fn p(_: micromath::vector::I8x2, _: micromath::vector::I16x2, _: micromath::vector::I32x2, _: micromath::vector::U8x2, "
                           "_: micromath::vector::U16x2, _: micromath::vector::U32x2, v: micromath::vector::F32x2) -> f32 { v.x }",
    "aliases of Vector3d": "pub fn p(_: micromath::vector::I8x3, _: micromath::vector::I16x3, _: micromath::vector::I32x3, _: micromath::vector::U8x3, "
                           "_: micromath::vector::U16x3, _: micromath::vector::U32x3, v: micromath::vector::F32x3) -> f32 { v.z }",
    "Component for F32": "pub fn p(v: micromath::vector::Vector3d<micromath::F32>) -> micromath::F32 { v.dot(v) }",
    "conversions of vectors": "use micromath::{vector::*, F32}; pub fn p() { f::<F32x2>(); g::<F32x3>() } fn f<T: From<I8x2> + From<I16x2> + From<U8x2> + From<U16x2>>() {} "
                              "fn g<T: From<I8x3> + From<I16x3> + From<U8x3> + From<U16x3> + From<Vector3d<F32>>>() {}",
    "impls of Vector2d": IMPLS_OF_VECTORS.replace("$N", "2").replace("$T", "(C, C)").replace("$E", ""),
    "impls of Vector3d": IMPLS_OF_VECTORS.replace("$N", "3").replace("$T", "(C, C, C)").replace("$E", " + From<Vector2d<C>>"),
    "methods of vectors": "use micromath::{vector::*, F32}; pub fn p(a: F32x2, b: I16x2, c: F32x3, d: U8x3) -> f32 { a.to_array()[0] + f32::from(b.dot(b) + b.perpendicular_dot(b) + b.cross(b).z) "
                          "+ a.distance(a) + b.distance(b) + a.magnitude_sq() + f32::from(b.magnitude_sq()) + a.magnitude() + d.magnitude() + a.normalized().x + c.normalized().z + c.to_array()[2] + c.cross(c).x "
                          "+ f32::from(d.dot(d)) + c.map_all().z + f32::from(U8x3::from_slice(&[1, 2, 3]).iter().fold(0, |a, b| a + b)) } "
                          "trait All { fn map_all(self) -> Self; } impl All for F32x3 { fn map_all(mut self) -> Self { self.map(|x| x + 1.0) } }",
    "impls of vector::Iter": "use micromath::vector::*; pub fn p() { f::<i8, Iter<'_, I8x2, i8>>(); f::<f32, Iter<'_, F32x3, f32>>() } fn f<C, T: Iterator<Item = C> + Clone + core::fmt::Debug + Send>() {}",
    "Component for all types": "use micromath::{vector::Component, F32}; pub fn p() { f::<i8>(); f::<i16>(); f::<i32>(); f::<u8>(); f::<u16>(); f::<u32>(); f::<f32>(); f::<F32>() } fn f<C: Component>() {}",
    "Quaternion": "pub fn p() -> micromath::Quaternion { micromath::Quaternion::IDENTITY }",
    "Quaternion algebra": "pub fn p(p: micromath::Quaternion, q: micromath::Quaternion) -> micromath::Quaternion "
                          "{ let mut r = (p + q - p) * q.inv() * 2.0 * p.conj().normalize(); r += q; r -= p; r *= p.dot(q); 1.5 * r.scale(p.magnitude() * p.norm()) }",
    "Quaternion conversions": "pub fn p(q: micromath::Quaternion) -> (f32, f32, f32) { let a: [f32; 4] = q.into(); let t: (f32, f32, f32, f32) = q.into(); "
                              "let _ = micromath::Quaternion::from(a) + micromath::Quaternion::from(t) + micromath::Quaternion::new(q.w(), q.x(), q.y(), q.z()); q.to_euler() }",
    "Quaternion::from_two_vectors": "pub fn p() { let _ = micromath::Quaternion::from_two_vectors::<f32>; }",
    "Quaternion::axis_angle": "pub fn p() { let _ = micromath::Quaternion::axis_angle::<f32>; }",
    "Quaternion::rotate": "pub fn p() { let _ = micromath::Quaternion::rotate::<f32>; }",
    "From<Vector3d> for Quaternion": "pub fn p(v: micromath::vector::Vector3d<i8>) -> micromath::Quaternion { v.into() }",
    "Mul<Vector3d> for Quaternion": "pub fn p(q: micromath::Quaternion, v: micromath::vector::F32x3) -> micromath::vector::F32x3 { q * v }",
    "num_traits": "pub fn p<T: micromath::num_traits::Zero>(x: T) -> bool { x.is_zero() }",
    "Zero for F32": "pub fn p() -> micromath::F32 { <micromath::F32 as num_traits::Zero>::zero() }",
    "One for F32": "pub fn p() -> micromath::F32 { <micromath::F32 as num_traits::One>::one() }",
    "Num for F32": "pub fn p(s: &str) -> bool { <micromath::F32 as num_traits::Num>::from_str_radix(s, 10).is_ok() }",
    "Inv for F32": "pub fn p(x: micromath::F32) -> micromath::F32 { <micromath::F32 as num_traits::Inv>::inv(x) }",
    "Format for F32": "pub fn p(x: micromath::F32) { f(x) } fn f<T: defmt::Format>(_: T) {}",
    "Format for Vector2d": "pub fn p(x: micromath::vector::U8x2, y: micromath::vector::F32x2) { f(x); f(y) } fn f<T: defmt::Format>(_: T) {}",
    "Format for Vector3d": "pub fn p(x: micromath::vector::I32x3, y: micromath::vector::F32x3) { f(x); f(y) } fn f<T: defmt::Format>(_: T) {}",
    "Format for Quaternion": "pub fn p(x: micromath::Quaternion) { f(x) } fn f<T: defmt::Format>(_: T) {}",
}
PRELUDE = """#![no_std]
#![allow(unused)]
extern crate defmt;
extern crate micromath;
extern crate num_traits;
"""
# a program without std (and without a heap): were std, or an allocator, linked, it would not compile
PANIC = "#[panic_handler]\nfn panic(_: &core::panic::PanicInfo<'_>) -> ! { loop {} }\n"


def probe(run, libs, name, code, kind="rlib"):
    """Does it compile?  (True or False, errors)"""
    path = run.path(f"tmp/{name}.rs")
    with open(path, "w") as f:
        f.write(code)
    cmd = ["rustc", "--edition=2018", "--crate-name", name, "--crate-type", kind, "--cap-lints=allow", "-o", run.path(f"tmp/{name}.out"),
           "-L", "dependency=" + os.path.dirname(libs["micromath"])]
    cmd += ["-C", "panic=abort"] if kind == "staticlib" else ["--emit=metadata"]
    for n, p in libs.items():
        cmd += ["--extern", f"{n}={p}"]
    r = run.run([*cmd, path], 120)
    try:
        os.remove(run.path(f"tmp/{name}.out"))
    except FileNotFoundError:
        pass
    return r.returncode == 0, r.stderr


def combination(run, n, row, pool):
    """Builds one feature set: the events of its history"""
    on = row["on"]
    event = {"e": "build", "on": on, "builds": False, "exposed": [], "hidden": []}
    label = "{" + ", ".join(on) + "}"
    r = cargo(run, "digest", "--message-format=json", *(["--features", ",".join(on)] if on else []))
    libs, exe = {}, None
    for line in r.stdout.splitlines():
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j.get("reason") == "compiler-artifact":
            if j["target"]["name"] in ("micromath", "num_traits", "defmt") and "rlib" in j["target"].get("crate_types", []) + ["rlib"]:
                libs[j["target"]["name"]] = [p for p in j["filenames"] if p.endswith(".rlib")][0]
            exe = j.get("executable") or exe
    if "micromath" not in libs:
        if "could not compile `micromath`" in r.stderr or '"target":{"kind":["lib"],"crate_types":["lib"],"name":"micromath"' in r.stdout:
            run.violations.append(f"the crate does not build with the features {label}: " + " ".join(r.stderr.split())[-600:])
            return [event]
        run.broken(f"building features/digest with {label} failed:\n" + r.stderr[-2000:])
    event["builds"] = True
    # what can be named, and what can not
    whole = PRELUDE + PANIC + "".join(f"pub mod p{k} {{ {PROBES[name]} }}\n" for k, name in enumerate(row["exposed"]))
    ok, err = probe(run, libs, f"whole{n}", whole, "staticlib")
    names = list(row["hidden"]) + ([] if ok else list(row["exposed"]))
    found = dict(zip(names, pool.map(lambda kn: probe(run, libs, f"p{n}_{kn[0]}", PRELUDE + PROBES[kn[1]])[0], enumerate(names))))
    if ok:
        found.update((name, True) for name in row["exposed"])
    elif all(found[name] for name in row["exposed"]):
        event["builds"] = False
        run.violations.append(f"a program without std can not use the crate with the features {label}: " + " ".join(err.split())[-600:])
    event["exposed"] = [name for name in found if found[name]]
    event["hidden"] = [name for name in found if not found[name]]
    for name in row["exposed"]:
        if not found[name]:
            run.violations.append(f"with the features {label}, {name} is missing")
    for name in row["hidden"]:
        if found[name]:
            run.violations.append(f"with the features {label}, {name} is available, which needs another feature")
    run.counts["items_probed"] = run.counts.get("items_probed", 0) + len(found)
    events = [event]
    if exe is None:
        run.violations.append(f"with the features {label}, functions are missing: " + " ".join(re.findall(r'"rendered":"(error.*?)\\n', r.stdout))[:600])
        return events
    d = run.run([exe, str(run.seed)], 120)
    if d.returncode != 0:
        run.violations.append(f"with the features {label}, a function fails: {d.stderr[-400:]}")
        return events
    for line in d.stdout.splitlines():
        group, digest = line.split()
        events.append({"e": "result", "group": group, "digest": digest})
        run.counts["digests"] = run.counts.get("digests", 0) + 1
    return events


def walk(run, rows):
    """Builds all feature sets in the order of the specification's walk: the name of the history"""
    from concurrent.futures import ThreadPoolExecutor
    name = "features-history.ndjson"
    with ThreadPoolExecutor(8) as pool, open(run.path(name), "w") as f:
        for n, line in enumerate(open(run.path(rows))):
            row = json.loads(line)
            for ev in combination(run, n, row, pool):
                f.write(json.dumps(ev) + "\n")
            run.samples.append("{" + ", ".join(row["on"]) + "}")
    run.counts["feature_sets"] = n + 1
    return name
