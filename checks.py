"""The checks: which specifications TLC checks for a property, and how they are bound to the real code."""

ASSUMPTIONS = [
    "TLC evaluates the specifications correctly, rustc and the CPU implement IEEE 754 binary32 and binary64 arithmetic",
    "the harness reads the emitted rows, and evaluates their predicates, as the comments of the specification describe them",
    "the code is judged on this CPU (x86-64), with overflow checks and debug assertions on",
]
import features, portable  # noqa: E402

CHECKS = {}


def check(pid, technique, note, level="model_checking", rule="", assumptions=()):
    def reg(f):
        CHECKS[pid] = {"technique": technique, "level_note": note, "level": level, "rule": rule, "assumptions": list(assumptions), "steps": f}
        return f
    return reg


# --- polyfills: bit rules ---
RULES = "TLA+ bit rules, model checked on all numbers of a small format, replayed on all 2^32 bit patterns"
RULES_NOTE = ("TLC proves the rules equal to the mathematical definitions for every number of a format with 4 + 4 bits, and at binary32 "
              "for significands next to every boundary; the rules are then compared with the code on every f32. Trusts that the rules, which "
              "depend on sign and exponent only, scale to 23 mantissa bits as they do to the significands checked.")


def session(r, ops, events=5000):
    name = "session-history.ndjson"
    if r.replay("session", ["--ops", ops, "--events", str(events), "--trace", "@" + name]):
        r.trace("SessionTrace", name)


def elem(r):
    """The trajectory of the elementary functions, and its nodes with 48 places"""
    r.tlc("Elem", workers=1)
    r.tlc("CurvesNodes", consts={"TRACE": r.path("Elem.ndjson")}, workers=1)


def curves(r, fns, events):
    """Calls of approximations, validated by TLC against elementary functions in multi-precision arithmetic"""
    r.tlc("BigMC")
    r.tlc("CurvesMC")
    if r.tier == "thorough":
        r.tlc("CurvesMC", cfg="CurvesWide", timeout=2400)
    name = "curve-calls.ndjson"
    if r.replay("curves", ["--fns", fns, "--events", str(events), "--trace", "@" + name]):
        r.trace("CurvesTrace", name, timeout=3000)


def attitude(r, ops, events):
    """Rotations, validated by TLC in multi-precision arithmetic"""
    r.tlc("BigMC")
    r.tlc("CurvesMC")
    name = "rotations.ndjson"
    if r.replay("attitude", ["--ops", ops, "--events", str(events), "--trace", "@" + name]):
        r.trace("AttitudeTrace", name, timeout=3000)


def exact(r, fns, events=4000):
    """Calls on numbers of all magnitudes, validated by TLC in exact rational arithmetic"""
    r.tlc("BigMC")
    r.tlc("ExactMC")
    name = "exact-calls.ndjson"
    if r.replay("exact", ["--fns", fns, "--events", str(events), "--trace", "@" + name]):
        r.trace("ExactTrace", name, timeout=3000)


def arithmetic(r, of, events):
    """Arithmetic of F32, or component-wise, validated by TLC against IEEE 754 arithmetic in exact rational numbers"""
    r.tlc("BigMC")
    r.tlc("IeeeMC", cfg="IeeeFma")
    if r.tier == "thorough":
        r.tlc("IeeeMC", cfg="IeeeWide", timeout=1800)
    name = "arithmetic.ndjson"
    if r.replay("arith", ["--from", of, "--events", str(events), "--trace", "@" + name]):
        r.trace("ArithTrace", name, timeout=3000)


def products(r, fns, events=2000):
    """Products and lengths of components of all magnitudes, validated by TLC in exact rational arithmetic"""
    r.tlc("BigMC")
    name = "products.ndjson"
    if r.replay("products", ["--fns", fns, "--events", str(events), "--trace", "@" + name]):
        r.trace("ProductsTrace", name, timeout=3000)


def polyfill(fns, *algebraic):
    def steps(r):
        r.tlc("FloatMC")
        r.tlc("PolyfillRows")
        r.replay("polyfill", ["--rows", "@PolyfillRows.ndjson", "--fns", fns])
        session(r, fns)
        if algebraic:
            exact(r, ",".join(algebraic))
    return steps


EVERY = "every bit pattern of f32 (all of them non-trivial: each has a row of the specification), for F32 and F32Ext"
check("C01", RULES, RULES_NOTE, rule=EVERY)(polyfill("abs,neg,copysign,signum"))
check("C02", RULES, RULES_NOTE, rule=EVERY)(polyfill("trunc,fract", "trunc", "fract"))
check("C03", RULES, RULES_NOTE, rule=EVERY)(polyfill("floor,ceil", "floor", "ceil"))
check("C04", RULES, RULES_NOTE, rule=EVERY)(polyfill("round", "round"))

# --- approximations: contracts ---
CONTRACT = "TLA+ contracts (model checked partition, symmetries) replayed on all 2^32 inputs against a model checked trajectory"
CURVES = "; recorded calls validated by TLC in multi-precision arithmetic (Curves)"
CONTRACT_NOTE = ("The contract rows cover every bit pattern (checked by TLC), and each f32 is tried. The true values come from the trajectory of two "
                 "model checked dynamical systems (rotation, growth), whose nodes TLC computes to 48 places (Curves), interpolated in f64 with an error below 1e-10. "
                 "Recorded calls are decided by TLC alone: power series in fixed point of 60 places, on integers of any size.")


def unary(fns, *more, events=0):
    def steps(r):
        elem(r)
        r.tlc("Contract")
        r.replay("unary", ["--rows", "@Contract.ndjson", "--elem", "@CurvesNodes.ndjson", "--fns", fns, *more])
        if events:
            curves(r, fns, events)
    return steps


def binary(r, fns):
    r.tlc("Contract2")
    r.replay("binary", ["--rows", "@Contract2.ndjson", "--elem", "@CurvesNodes.ndjson", "--fns", fns])


PAIRS = ("pairs of f32: all combinations of signs and exponents with boundary and random mantissas, neighbours, multiples, integers, "
         "powers of two, special values; non-trivial are those in cells with a predicate")
CONTRACT2 = "TLA+ contracts over magnitude classes (model checked symmetries), replayed on pairs from all sign and exponent combinations"
CONTRACT2_NOTE = ("The contract gives a predicate to every pair of classes (checked by TLC, symmetries included); the code is tried on "
                  "2^28 (thorough: 2^33) pairs, which meet all sign and exponent combinations, but only a part of all mantissas.")

check("C05", CONTRACT + CURVES, CONTRACT_NOTE, rule=EVERY)(unary("sin,cos", events=5000))
check("C06", CONTRACT + CURVES, CONTRACT_NOTE, rule=EVERY)(unary("tan", "--sin-cos", events=5000))
check("C07", CONTRACT + CURVES, CONTRACT_NOTE, rule=EVERY)(unary("atan,atan_norm", events=5000))
check("C09", CONTRACT + CURVES, CONTRACT_NOTE, rule=EVERY)(unary("asin,acos", events=4000))
check("C12", CONTRACT + CURVES, CONTRACT_NOTE, rule=EVERY)(unary("exp,cosh", events=5000))


@check("C08", CONTRACT2 + CURVES, CONTRACT2_NOTE, rule=PAIRS)
def c08(r):
    elem(r)
    binary(r, "atan2,atan2_norm")
    curves(r, "atan2,atan2_norm", 5000)


@check("C11", CONTRACT + "; recorded calls validated by TLC in exact arithmetic", CONTRACT_NOTE, rule=EVERY)
def c11(r):
    unary("inv,recip,invsqrt")(r)
    exact(r, "inv,recip,invsqrt")


@check("C10", CONTRACT + "; recorded calls validated by TLC in exact arithmetic", CONTRACT_NOTE + " hypot: " + CONTRACT2_NOTE, rule=EVERY + "; hypot: " + PAIRS)
def c10(r):
    unary("sqrt")(r)
    binary(r, "hypot")
    exact(r, "sqrt,hypot")


@check("C13", CONTRACT + CURVES, CONTRACT_NOTE + " log: " + CONTRACT2_NOTE, rule=EVERY + "; log: " + PAIRS)
def c13(r):
    unary("ln,log2,log10")(r)
    binary(r, "log")
    curves(r, "ln,log2,log10,log", 5000)


@check("C14", CONTRACT2 + CURVES, CONTRACT2_NOTE, rule=PAIRS)
def c14(r):
    r.tlc("FloatMC")
    elem(r)
    binary(r, "powf")
    curves(r, "powf", 5000)


@check("C15", "TLA+ machine of powers by squaring (model checked loop invariant, error bound), contract replayed on pairs",
       "TLC runs the machine for every exponent of 12 bits, and derives the error bound; the code is compared with the machine (run in f64) on "
       "2^28 (thorough: 2^33) pairs of numbers and exponents.", rule=PAIRS.replace("pairs of f32", "pairs of f32 and i32"))
def c15(r):
    r.tlc("Powi")
    elem(r)
    r.replay("binary", ["--rows", "@Powi.ndjson", "--elem", "@CurvesNodes.ndjson", "--fns", "powi"])
    session(r, "powi")
    exact(r, "powi", 1200)


@check("C16", "TLA+ machine of Euclidean division, its results replayed at all scales; contract replayed on pairs; recorded history validated by TLC",
       "TLC runs the machine for every dividend and divisor up to 24; its results are replayed at 263 scales. Pairs of all signs and exponents "
       "are compared with exact modular arithmetic. TLC validates a recorded history of divisions up to 2^24.", rule=PAIRS)
def c16(r):
    r.tlc("Euclid")
    elem(r)
    binary(r, "rem_euclid,div_euclid")
    if r.replay("euclid", ["--rows", "@Euclid.ndjson", "--trace", "@euclid-history.ndjson"]):
        r.trace("EuclidTrace", "euclid-history.ndjson")
    session(r, "rem_euclid,div_euclid")
    exact(r, "rem_euclid,div_euclid", 6000)


# --- scalar API beyond the approximations ---
@check("C17", "TLA+ algebra of special values and register machine (model checked laws), replayed on pairs; recorded histories validated by TLC",
       "TLC checks the class algebra of the operators on all classes, and the laws of the register machine on a small range; every operator form is "
       "compared with both the rows and the IEEE arithmetic of the CPU on 2^26 (thorough: 2^32) pairs, and TLC validates recorded histories of exact operations.",
       rule=PAIRS)
def c17(r):
    r.tlc("Ops", workers=1)
    r.tlc("SessionMC")
    r.replay("ops", ["--rows", "@Ops.ndjson"])
    session(r, "add,sub,mul,div,rem,neg,sum,product,mul_add,cmp", 20000)
    arithmetic(r, "scalar", 30000)


@check("C18", "TLA+ derivation of the format (constants, classes, integers), replayed on all 2^32 bit patterns and all integers; histories validated by TLC",
       "TLC derives constants, classification and the bits of integers from the number of exponent and mantissa bits; all bit patterns and all "
       "integers of the convertible types are compared.", rule="every bit pattern of f32 and every i8, i16, u8, u16")
def c18(r):
    r.tlc("Format", workers=1)
    r.replay("format", ["--rows", "@Format.ndjson"])
    session(r, "bits,f32,conv")


@check("C19", "TLA+ machine of API calls through two clients; methods and all programs of two calls replayed under all schedules of clients",
       "TLC enumerates the methods and programs; each method is compared on 2^29 (thorough: all 2^32) bit patterns, or 2^27 (2^32) tuples of arguments.",
       rule="bit patterns of f32 scattered over all signs, exponents and mantissas; tuples; programs of two calls")
def c19(r):
    r.tlc("Api")
    r.replay("api", ["--mode", "ext", "--rows", "@Api.ndjson"])


@check("C20", "TLA+ machine of API calls in which every call is enabled; every method called on half (thorough: all) of all bit patterns with overflow checks",
       "TLC enumerates the methods, whose calls are always enabled; each is run on 2^31 (thorough: all 2^32) bit patterns, or 2^27 (2^32) tuples, "
       "in a build with overflow checks and debug assertions.", rule="bit patterns of f32: one of each two neighbours, all with up to 12 leading mantissa bits, integers; tuples")
def c20(r):
    r.tlc("Api")
    r.replay("api", ["--mode", "panics", "--rows", "@Api.ndjson"])


@check("C33", "TLA+ scanner of number texts (model checked against its grammar), all short texts and random walks replayed; recorded texts, read and written, validated by TLC against exact decimal conversion (Decimal)",
       "TLC proves the scanner equal to the grammar on all texts of up to 5 symbols, and decimal conversion right on a small format; all these texts, random ones, and the texts of formatted numbers, with formatter options, are "
       "compared with the code (F32) and the standard library (f32), and TLC judges recorded conversions (nearest number, shortest digits, precision, width) exactly.",
       rule="all texts of up to 5 of 8 symbols, 2^19 (2^24) random walks of the scanner, 2^26 (thorough: all 2^32) formatted numbers; exact midpoints between numbers; forms, precisions, widths, signs, zeros, fills and alignments; 2^21 (2^26) buffers too short")
def c33(r):
    r.tlc("Text")
    r.replay("text", ["--rows", "@Text.ndjson"])
    session(r, "text")
    r.tlc("BigMC")
    r.tlc("DecimalMC")
    if r.replay("decimal", ["--rows", "@Text.ndjson", "--events", "3000", "--trace", "@decimal.ndjson"]):
        r.trace("DecimalTrace", "decimal.ndjson", timeout=3000)


@check("C32", "TLA+ format, class algebra (neutral elements) and scanner of number texts, replayed on all 2^32 bit patterns and on texts in all radices",
       "TLC derives the constants 0 and 1 and checks that they are neutral in the class algebra; every bit pattern is tried. Texts in radix 10 come from the "
       "model checked scanner, in other radices they are random, and compared with num-traits' implementation for f32.",
       rule="every bit pattern of f32; all texts of up to 5 of 8 symbols, 2^21 (2^26) random texts in radices 2 to 36")
def c32(r):
    r.tlc("Ops", workers=1)
    r.tlc("Format", workers=1)
    r.tlc("Text")
    r.replay("numtraits", ["--texts", "@Text.ndjson", "--format", "@Format.ndjson"])
    session(r, "zero_add,one_mul")


# --- vectors ---
TYPES = "vectors of 2 and 3 components of i8, i16, i32, u8, u16, u32, f32, F32, "


@check("C21", "TLA+ vector register (model checked laws) and polynomials, replayed on all component types; recorded histories validated by TLC",
       "TLC explores all histories of the register with components in -2..2; the component operations of the code are compared on 2^26 (thorough: 2^32) pairs "
       "of vectors, and TLC validates histories of all forms of the operators.", rule=TYPES + "random in six kinds of ranges; non-trivial: those whose results fit")
def c21(r):
    r.tlc("VectorsMC")
    r.tlc("Poly")
    if r.replay("vector", ["--mode", "arith", "--rows", "@Poly.ndjson", "--trace", "@vectors-history.ndjson"]):
        r.trace("VectorsTrace", "vectors-history.ndjson")
    arithmetic(r, "vector", 12000)


@check("C22", "TLA+ products as symbolic polynomials (TLC proves their laws), replayed term by term; recorded histories validated by TLC",
       "The laws hold of polynomials, so of all numbers; the code is compared with the emitted terms on 2^26 (thorough: 2^32) pairs of vectors.",
       rule=TYPES + "random in six kinds of ranges; non-trivial: those whose terms and partial sums fit")
def c22(r):
    r.tlc("Poly")
    r.tlc("VectorsMC")
    if r.replay("vector", ["--mode", "products", "--rows", "@Poly.ndjson", "--trace", "@vectors-history.ndjson"]):
        r.trace("VectorsTrace", "vectors-history.ndjson")
    products(r, "dot,magsq,cross", 4000)


@check("C23", "TLA+ machine of component iterators and constructions (model checked), recorded histories validated by TLC; conversions replayed",
       "TLC explores up to three iterators, cloned and advanced in any order, and validates recorded histories of iterators, constructions and conversions.",
       rule=TYPES + "random; indices up to AXES + 40 and at powers of two; items 0 to 5")
def c23(r):
    r.tlc("VecIterMC")
    r.tlc("IteratorsMC")
    r.tlc("Poly")
    if r.replay("vector", ["--mode", "access", "--methods", "@IteratorsMC.ndjson", "--rows", "@Poly.ndjson", "--trace", "@vectors-history.ndjson", "--iterators", "@iterators-history.ndjson"]):
        r.trace("VectorsTrace", "vectors-history.ndjson")
        r.trace("VecIterTrace", "iterators-history.ndjson")


@check("C24", "TLA+ lengths of integer vectors (model checked bounds), replayed at all scales; recorded lengths validated by TLC",
       "TLC checks the bounds, and the triangle and Cauchy inequalities, for all pairs of vectors with components in -3..3; the code is compared with exact "
       "lengths on 2^26.6 (thorough: 2^32.6) pairs, and TLC validates recorded lengths of integer vectors.", rule=TYPES + "of magnitudes 2^-60 to 2^60")
def c24(r):
    r.tlc("LengthsMC")
    if r.replay("vector", ["--mode", "lengths", "--rows", "@LengthsMC.ndjson", "--trace", "@lengths-history.ndjson"]):
        r.trace("LengthsTrace", "lengths-history.ndjson")
    products(r, "length,distance,normalized", 3000)


# --- statistics ---
STATS = ("all sequences of up to 4 numbers in -3..3, and of up to 6 of 0, 1, 9, at 8 scales; random samples of ten shapes, up to 600 of them; long ones of up to 2^18 "
         "with one sample that matters")


def samples(r, mode, events):
    """Statistics of samples of all magnitudes, recorded and judged by TLC with exact arithmetic"""
    r.tlc("SamplesMC")
    if r.tier == "thorough":
        r.tlc("SamplesMC", "SamplesWide")
    trace = f"samples-{mode}.ndjson"
    if r.replay("samples", ["--mode", mode, "--events", str(events), "--trace", "@" + trace]):
        r.trace("SamplesTrace", trace, timeout=3000)


@check("C25", "TLA+ machine of the passes over samples (model checked statistics), its rows replayed at all scales; recorded statistics of integers, and of f32 samples of all magnitudes (exact arithmetic of Samples), validated by TLC",
       "TLC runs the passes on all sequences of up to 4 samples, with laws (shift, scale, order, pairs); the rows and 2^21 (thorough: 2^26) random samples are compared "
       "with exact sums, within bounds of f32 rounding, and TLC validates recorded statistics of integers.", rule=STATS)
def c25(r):
    r.tlc("StatsMC")
    if r.replay("stats", ["--mode", "moments", "--rows", "@StatsMC.ndjson", "--trace", "@statistics-history.ndjson"]):
        r.trace("StatsTrace", "statistics-history.ndjson")
    samples(r, "moments", 3000)


@check("C26", "TLA+ machine of the trimming pass with nondeterminism between the bounds (model checked), its rows replayed; recorded iterators over integers, and over f32 samples of all magnitudes (exact arithmetic of Samples), validated by TLC",
       "TLC runs the trimming of all sequences of up to 4 samples at all thresholds; the verdicts are replayed at 8 scales, 2^21 (thorough: 2^26) random samples are "
       "judged by exact statistics, and TLC validates histories of up to three iterators.", rule=STATS + "; thresholds in [0, 4), negative, infinite")
def c26(r):
    r.tlc("StatsMC")
    r.tlc("IteratorsMC")
    if r.replay("stats", ["--mode", "trim", "--rows", "@StatsMC.ndjson", "--methods", "@IteratorsMC.ndjson", "--trace", "@trim-history.ndjson"]):
        r.trace("StatsTrace", "trim-history.ndjson")
    samples(r, "trim", 4000)


# --- quaternions ---
QUATS = "quaternions of eight shapes (small integers, similar sizes, sparse, sizes 2^-30 to 2^30, unit), "


def quaternion(r, mode, nodes=False, trace=False):
    r.tlc("QuatMC")
    r.tlc("Poly")
    if nodes:
        elem(r)
    ok = r.replay("quaternion", ["--mode", mode, "--rows", "@QuatMC.ndjson", "--poly", "@Poly.ndjson"] + (["--elem", "@CurvesNodes.ndjson"] if nodes else [])
                  + (["--trace", "@quaternion-history.ndjson"] if trace else []))
    if ok and trace:
        r.trace("QuatTrace", "quaternion-history.ndjson")


@check("C27", "TLA+ Hamilton algebra as symbolic polynomials (TLC proves its laws), replayed term by term; recorded histories validated by TLC",
       "The laws hold of polynomials, so of all numbers; the code is compared with the emitted terms on 2^25 (thorough: 2^31) pairs of quaternions, and TLC validates "
       "histories of all forms of the operations on integers.", rule=QUATS + "and any bit patterns; all values of the integer types for From<Vector3d>")
def c27(r):
    quaternion(r, "algebra", trace=True)
    arithmetic(r, "quaternion", 12000)
    products(r, "qmul,qdot,norm", 2000)


@check("C28", "TLA+ bounds and orientations (model checked), replayed on quaternions of all magnitudes; panics predicted by the model",
       "The bounds are emitted by the specification; the code is compared with exact lengths on 2^26 (thorough: 2^32) quaternions.", rule=QUATS + "and any bit patterns, and magnitudes with norms that underflow")
def c28(r):
    quaternion(r, "lengths")
    products(r, "qlength,qnormalize,qinv", 3000)


@check("C29", "TLA+ machine of turns (48 states, all checked) and symbolic polynomials, replayed term by term; recorded turns of a body, by any angles, validated by TLC in multi-precision arithmetic",
       "TLC proves rotation laws of polynomials and explores all orientations by quarter turns; the code is compared on 2^26.6 (thorough: 2^31.6) rotations and angles, and "
       "TLC validates histories of turns by axis_angle, normalize and rotate.", rule=QUATS + "vectors of i8, i16, u8, u16, f32, F32; angles up to 8192")
def c29(r):
    quaternion(r, "rotation", nodes=True, trace=True)
    products(r, "rotate", 800)
    attitude(r, "axis,turn", 3000)


@check("C30", "TLA+ machine of turns (smallest rotation checked) and symbolic law of the half-way quaternion, replayed on pairs of vectors; recorded calls validated by TLC in exact rational arithmetic",
       "TLC proves that (s + u.v, u x v) turns u to v, and that no other orientation does so with a smaller angle; the code is judged by the polynomials on 2^26.6 (thorough: "
       "2^31.6) pairs of vectors.", rule="vectors of i8, i16, u8, u16, f32, F32, parallel, opposite, nearly so, perpendicular, random")
def c30(r):
    quaternion(r, "between")
    attitude(r, "between", 900)


@check("C31", "TLA+ machine of turns (roll, pitch, yaw of all orientations checked) and symbolic polynomials, replayed on unit quaternions; recorded calls validated by TLC in multi-precision arithmetic",
       "TLC checks that the formulas give the angles of all 48 quaternions of the machine, and that they are entries of the rotation matrix; the code is judged by them on "
       "2^27 (thorough: 2^33) unit quaternions.", rule="unit quaternions from random angles, of pitches near and at 90 degrees, sparse, random; the 48 of the machine")
def c31(r):
    quaternion(r, "euler", nodes=True)
    attitude(r, "euler", 2000)


# --- features ---
@check("C36", "TLA+ specification of vectors over symbolic components (model checked), validating recorded operations on the components of a user's type; lengths in exact arithmetic",
       "TLC explores the algebra of vectors of one to three axes over free components; it then validates all operations that Vector2d, Vector3d, and vector types with 1, 4 and 7 axes have done on "
       "components of a type that is not a number, with all outcomes of their comparisons; lengths of vectors of user-defined types are validated in exact rational arithmetic.",
       rule="programs of 1 to 4 calls on symbolic components, with all outcomes of comparisons; vectors of a fixed-point type, and of f32 and F32 with 1, 4, 5 and 7 axes")
def c36(r):
    r.tlc("SymbolsMC")
    r.tlc("BigMC")
    r.tlc("IteratorsMC")
    if r.replay("generic", ["--methods", "@IteratorsMC.ndjson", "--programs", "400", "--events", "2000", "--trace", "@symbolic-calls.ndjson", "--lengths", "@lengths.ndjson"]):
        r.trace("SymbolsTrace", "symbolic-calls.ndjson", timeout=3000)
        r.trace("ProductsTrace", "lengths.ndjson", timeout=3000)


@check("C40", "TLA+ shapes of functions (order, symmetry, no jumps), decided on all numbers by a model checked procedure of workers with chunks; recorded calls validated by TLC",
       "TLC proves that the merged verdict of the workers is that of all pairs of numbers, for all functions on a small domain, all orders of work and three kinds of excess; the procedure then runs on all numbers for each shape, "
       "and TLC judges recorded pairs of calls by themselves.",
       rule="all numbers of the domain of each of 52 shapes (so, all pairs of them, for order); 2^25 (thorough: 2^31) pairs of arguments of hypot and atan2")
def c40(r):
    r.tlc("OrderMC")
    if r.tier == "thorough":
        r.tlc("OrderMC", cfg="OrderWide", timeout=1800)
    if r.replay("order", ["--rows", "@OrderMC.ndjson", "--events", "6000", "--trace", "@order.ndjson"]):
        r.trace("OrderTrace", "order.ndjson", timeout=3000)


@check("C38", "TLA+ specification of values in registers (copies, equality, texts; model checked); its table of equal numbers, composed for all axes, and recorded histories of values validated by TLC",
       "TLC explores registers of values with floating point, integer and user-defined components; all pairs of values with 13 special numbers on each axis are compared, and pairs that differ in a bit; "
       "TLC validates recorded histories of copies, changes, comparisons and Debug texts.",
       rule="all pairs of values with 13 special numbers per axis (of quaternions, a seventh; thorough: all), 2^21 (2^27) pairs for each of 20 types; histories of four registers")
def c38(r):
    for cfg in ("ValuesMC", "ValuesKey", "ValuesQuat", "ValuesF32"):
        r.tlc("ValuesMC", cfg=cfg)
    if r.replay("values", ["--rows", "@ValuesMC.ndjson", "--events", "300", "--trace", "@values.ndjson"]):
        r.trace("ValuesTrace", "values.ndjson", timeout=3000)


@check("C35", "TLA+ reader of defmt's wire format (model checked against all writers), validating recorded logs of values",
       "TLC runs the reader on all orders of placeholders and arguments, nested or not; it then reads the bytes that the code logs for values of all types.",
       rule="values of F32, Quaternion, and vectors of i8, i16, i32, u8, u16, u32, f32, F32, with special, small, integral and random components")
def c35(r):
    r.tlc("DefmtMC")
    name = features.encode(r, 200 if r.tier == "quick" else 1200)
    if name:
        r.trace("DefmtTrace", name, histories=r.histories)


@check("C37", "TLA+ specification of calls as functions of their arguments; all machines with memory (model checked) give the sequences of calls to try, in fresh processes and in all orders; recorded histories of threads validated by TLC",
       "TLC runs all machines with up to 3 memory states and shows that words of 4 calls, from a fresh start, expose each impure one, and interleaves threads that share memory in five ways; the words are "
       "run for pairs of 2500 calls, in processes of their own and in one process, against results of fresh processes; 8 threads make the calls, and TLC validates the recorded history.",
       rule="2500 calls (of all functions), words of 4 calls for pairs of them, fresh processes, 8 threads that make 2^24 calls (thorough: 2^28) on neighbouring arguments")
def c37(r):
    r.tlc("PurityWords", cfg="PurityWide")
    r.tlc("PurityWords", workers=1)
    r.tlc("PurityMC", workers=1)
    r.tlc("PurityMC", cfg="PuritySolo", workers=1)
    if r.replay("purity", ["--rows", "@PurityWords.ndjson", "--trace", "@threads.ndjson", "--events", "6000" if r.tier == "quick" else "60000"]):
        r.trace("PurityTrace", "threads.ndjson", timeout=3000)


@check("C34", "TLA+ machine of feature sets (all 32, model checked), walked through by building them; recorded builds and digests validated by TLC",
       "TLC explores all feature sets and derives which items each offers; all 32 are built, their items probed by programs without std, and digests of the results compared.",
       rule="every feature set, with 37 probes of items that it offers or not; digests of 20000 calls of each function")
def c34(r):
    r.tlc("FeaturesMC")
    r.trace("FeaturesTrace", features.walk(r, "FeaturesMC.ndjson"))


@check("C39", "TLA+ machine of platforms that hold the same numbers as different bytes (model checked); digests of all functions, recorded in builds that differ and, interpreted, on other platforms, validated by TLC",
       "TLC checks that steps by value keep the platforms equal, and writes the numbers to try; a program without std calls all functions on them, in five builds for this machine and interpreted by Miri for 32 bit and big endian targets, and TLC "
       "compares the recorded digests; the builds for this machine are compared on 2^23 (thorough: all) bit patterns, too.",
       rule="2048 bit patterns with all exponents, 5184 pairs of them (1296 for vectors and quaternions), for each function, on 8 platforms and builds; 2^23 (thorough: all 2^32) bit patterns in 5 builds")
def c39(r):
    r.tlc("PlatformMC")
    got = portable.compare(r, "PlatformMC.ndjson")
    if got:
        history, results, words = got
        r.trace("PlatformTrace", history)
        if r.violations:
            portable.explain(r, results, words)
