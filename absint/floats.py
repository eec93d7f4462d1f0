"""Arithmetic on known floats; what can be said about unknown ones.

Known doubles are computed with IEEE-754 double arithmetic (python's floats).
Single precision values are kept as the double of the same value.  Unknown
floats have an ordinal only: comparisons and signs, no arithmetic."""
import math
import struct

from . import ops, core
from .core import FV, SI, Undecided, Engine
from .models import M, d1

INF = ops.fbits(float("inf"))
NINF = ops.fbits(float("-inf"))


def val(f):
    f = d1(f)
    if type(f) is not FV or f.bits is None:
        raise Undecided("arithmetic on an unknown float")
    return ops.f64(f.bits)


def mk(v):
    return FV(bits=ops.fbits(v))


def f32(v):
    if v != v or math.isinf(v):
        return v
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return math.copysign(float("inf"), v)


def div(a, b):
    if b == 0:
        if a == 0 or a != a:
            return float("nan")
        return math.copysign(float("inf"), a) * math.copysign(1.0, b)
    return a / b


def rem(a, b):
    if a != a or b != b or math.isinf(a) or b == 0:
        return float("nan")
    return math.fmod(a, b)


BIN = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b, "Div": div, "Rem": rem}


def binop(E, op, a, b, single=False):
    r = BIN[op](val(a), val(b))
    return mk(f32(r) if single else r)


def keep(fn):
    def f(x):
        if x != x or math.isinf(x):
            return x
        return math.copysign(float(fn(x)), x)
    return f


def rnd(x):
    return math.floor(abs(x) + 0.5) if abs(x) < 2 ** 52 and abs(x) != 0.49999999999999994 else (0 if abs(x) < 1 else abs(x))


UN = {"trunc": keep(math.trunc), "floor": keep(math.floor), "ceil": keep(math.ceil), "round": keep(rnd), "roundeven": keep(round),
      "rint": keep(round), "round_ties_even": keep(round), "sqrt": lambda x: math.sqrt(x) if x >= 0 else float("nan") if x == x else x,
      "fabs": abs, "abs": abs}


def unary(fn, single):
    return lambda E, a, ci: mk(f32(fn(val(a[0]))) if single else fn(val(a[0])))


for _n, _f in UN.items():
    for _p in ("core::num::imp::libm::", "std::intrinsics::", "core::f64::math::", "core::f32::math::"):
        for _s in ("", "f", "f64", "f32"):
            M[_p + _n + _s] = unary(_f, _s in ("f", "f32"))
    for _p in ("std::f64::<impl f64>::", "core::num::<impl f64>::", "core::f64::<impl f64>::", "std::num::<impl f64>::"):
        M[_p + _n] = unary(_f, False)


def sign(E, f):
    """is the sign bit set?"""
    if f.bits is not None:
        return bool(f.bits >> 63)
    if not E.is_nan(f):
        z = FV(bits=0)
        if E.frel("Lt", f, z):
            return True
        if E.frel("Gt", f, z):
            return False
    return E.fneg(f)


def negate(E, f):
    if f.bits is not None:
        return FV(bits=f.bits ^ (1 << 63))
    if type(f.id) is tuple and f.id[:1] == ("neg",):
        return E.negs[f.id[1]]
    if not hasattr(E, "negs"):
        E.negs = {}
    E.negs[f.id] = f
    n = FV(v=E.z.var(), id=("neg", f.id))
    E.facts[("nan", n.id)] = E.is_nan(f)
    if not E.is_nan(f):
        E.imprecise = "negation of an unknown float"
    return n


def _abs(E, a, ci):
    f = d1(a[0])
    return negate(E, f) if sign(E, f) else f


for _p in ("std::f64::<impl f64>::", "core::num::<impl f64>::", "core::f64::<impl f64>::", "std::intrinsics::", "core::f64::math::"):
    M[_p + "abs"] = _abs
    M[_p + "fabsf64"] = _abs
    M[_p + "is_sign_negative"] = lambda E, a, ci: sign(E, d1(a[0]))
    M[_p + "is_sign_positive"] = lambda E, a, ci: not sign(E, d1(a[0]))


def bswap(E, a, ci):
    x = E.conc(a[0])
    if x is None:
        raise Undecided("byte swap of an unknown")
    n = E.p.types[ci.ta[0]]["bits"] // 8
    return int.from_bytes(x.to_bytes(n, "little"), "big")


M["std::intrinsics::bswap"] = bswap


def finite(E, f):
    """is an unknown float finite?"""
    if E.is_nan(f):
        return False
    if E.frel("Eq", f, FV(bits=INF)):
        return False
    return not E.frel("Eq", f, FV(bits=NINF))


def total_cmp(E, a, ci):
    return E.p.mk_ordering(E.ftotal(d1(a[0]), d1(a[1])))


for _p in ("std::f64::<impl f64>::", "core::num::<impl f64>::", "core::f64::<impl f64>::"):
    M[_p + "total_cmp"] = total_cmp
