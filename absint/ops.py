"""MIR operators on abstract values."""
import struct
from .core import (Agg, BoxV, RcV, Ref, SliceRef, StringV, SymStr, SymBytes, VecV, SI, FV, FnV, Obj, Discr, Undecided)


class PtrI:
    """address of byte `off` of a text"""
    __slots__ = ("b", "off")

    def __init__(self, b, off):
        self.b, self.off = b, off


def ptrop(E, op, a, b):
    if a.b is not b.b and a.b != b.b:
        raise Undecided("addresses of unrelated texts")
    if op.replace("Unchecked", "") == "Sub":
        return a.off - b.off
    if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        return binop(E, op, a.off, b.off, None)
    raise Undecided("pointer op " + op)


def undec(why):
    raise Undecided(why)


def rp(x):
    t = type(x)
    if t is BoxV or t is RcV:
        return Ref(x.f, 0)
    return x


def rng(ti):
    if ti is None:
        return None
    k = ti["k"]
    if k == "uint":
        return 0, (1 << ti["bits"]) - 1
    if k == "int":
        return -(1 << (ti["bits"] - 1)), (1 << (ti["bits"] - 1)) - 1
    if k == "char":
        return 0, 0x10ffff
    if k == "bool":
        return 0, 1
    return None


def wrap(v, ti):
    r = rng(ti)
    if r is None:
        return v
    lo, hi = r
    return (v - lo) % (hi - lo + 1) + lo


def num(E, x):
    if type(x) is bool:
        return int(x)
    if type(x) is Discr:
        E.force(x.a)
        return E.p.discr_of(x.a)
    return x


def raw(E, op, a, b):
    """unbounded-integer result of an arithmetic op, or None"""
    ca, cb = E.conc(a), E.conc(b)
    if ca is not None and cb is not None:
        if op == "Add":
            return ca + cb
        if op == "Sub":
            return ca - cb
        if op == "Mul":
            return ca * cb
    if op == "Add":
        if cb is not None:
            return SI(a.v, a.o + cb)
        if ca is not None:
            return SI(b.v, b.o + ca)
        la, ha = E.bounds(a)
        lb, hb = E.bounds(b)
        s = lambda x, y: None if x is None or y is None else x + y
        r = E.int_var(s(la, lb), s(ha, hb))
        # r - a in [lb,hb]
        if hb is not None:
            E.z.add(r.v, a.v, hb + a.o)
        if lb is not None:
            E.z.add(a.v, r.v, -(lb + a.o))
        if ha is not None:
            E.z.add(r.v, b.v, ha + b.o)
        if la is not None:
            E.z.add(b.v, r.v, -(la + b.o))
        E.imprecise = "sum of unknowns"
        return r
    if op == "Sub":
        if cb is not None:
            return SI(a.v, a.o - cb)
        if type(a) is SI and type(b) is SI and a.v == b.v:
            return a.o - b.o
        if ca is not None:
            x = neg(E, b)
            return SI(x.v, x.o + ca) if type(x) is SI else x + ca
        la, ha = E.bounds(a)
        lb, hb = E.bounds(b)
        # tighter: a-b <= m[a][b]
        va, oa = E.vo(a)
        vb, ob = E.vo(b)
        m = E.z.m
        hi = None if m[va][vb] is None else m[va][vb] + oa - ob
        lo = None if m[vb][va] is None else -(m[vb][va]) + oa - ob
        if lo is not None and lo == hi:
            return lo
        if lo is not None and hi is not None and hi - lo <= 300:
            i = E.choose(hi - lo + 1, "difference")
            v = lo + i
            if not E.ieq_assume(SI(va, oa) if va or True else a, SI(vb, ob + v)):
                from .core import Infeasible
                raise Infeasible()
            return v
        E.imprecise = "difference of unknowns"
        return E.int_var(lo, hi)
    if op == "Mul":
        if ca == 0 or cb == 0:
            return 0
        if ca == 1:
            return b
        if cb == 1:
            return a
        for _ in range(2):
            for x in (a, b):
                lo, hi = E.bounds(x)
                if E.conc(x) is None and lo is not None and hi is not None and hi - lo <= 300:
                    E.concretize(x, 300, "factor")
        ca, cb = E.conc(a), E.conc(b)
        if ca is not None and cb is not None:
            return ca * cb
        if cb is not None and 0 <= cb:
            x, c = a, cb
        elif ca is not None and 0 <= ca:
            x, c = b, ca
        else:
            return None
        # product with a known factor: bounds only
        lo, hi = E.bounds(x)
        E.imprecise = "scaled unknown"
        return E.int_var(None if lo is None else lo * c, None if hi is None else hi * c)
    return None


def inrange(E, r, ti):
    lo, hi = rng(ti)
    if not E.le(lo, r, 0, "underflow"):
        return -1
    if not E.le(r, hi, 0, "overflow"):
        return 1
    return 0


def binop(E, op, a, b, ti):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        if op == "Eq":
            return a == b
        if op == "Lt":
            return a < b
        if op == "Ne":
            return a != b
        if op == "Le":
            return a <= b
        if op == "Gt":
            return a > b
        if op == "Ge":
            return a >= b
    if ta is bool and tb is bool:
        if op == "BitAnd":
            return a and b
        if op == "BitOr":
            return a or b
        if op in ("BitXor", "Ne"):
            return a != b
        if op == "Eq":
            return a == b
    if ta is FV or tb is FV:
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return E.frel(op, a, b)
        from . import floats
        if op in floats.BIN and ta is FV and tb is FV:
            return floats.binop(E, op, a, b, ti is not None and ti.get("s", "").lower().endswith("32"))
        raise Undecided("float arithmetic")
    if ta is Ref or tb is Ref:
        if op in ("Eq", "Ne") and ta is tb:
            r = a.b is b.b and a.k == b.k
            return r if op == "Eq" else not r
        raise Undecided("pointer op " + op)
    if ta is PtrI and tb is PtrI:
        return ptrop(E, op, a, b)
    if ta is Discr and tb is Discr and op in ("Eq", "Ne"):
        E.force(a.a)
        E.force(b.a)
    a, b = num(E, a), num(E, b)
    if type(a) not in (int, SI) or type(b) not in (int, SI):
        raise Undecided("operands of %s: %s %s" % (op, ta.__name__, tb.__name__))
    if op == "Eq":
        return E.ieq(a, b)
    if op == "Ne":
        return not E.ieq(a, b)
    if op == "Lt":
        return E.le(a, b, -1)
    if op == "Le":
        return E.le(a, b)
    if op == "Gt":
        return E.le(b, a, -1)
    if op == "Ge":
        return E.le(b, a)
    if op == "Cmp":
        if E.le(a, b, -1):
            return E.p.mk_ordering(-1)
        return E.p.mk_ordering(0 if E.le(a, b) else 1)
    op = op.replace("Unchecked", "")
    if op in ("Add", "Sub", "Mul"):
        r = raw(E, op, a, b)
        if r is None:
            raise Undecided("nonlinear arithmetic")
        if type(r) is int:
            return wrap(r, ti)
        k = inrange(E, r, ti)
        lo, hi = rng(ti)
        m = hi - lo + 1
        return r if k == 0 else SI(r.v, r.o - k * m)
    return bits(E, op, a, b, ti)


def bits(E, op, a, b, ti):
    ca, cb = E.conc(a), E.conc(b)
    if op in ("Div", "Rem") and cb is not None and ca is None and cb > 0:
        lo, hi = E.bounds(a)
        if lo is not None and hi is not None and lo >= 0 and hi // cb - lo // cb <= 300:
            q = lo // cb + E.choose(hi // cb - lo // cb + 1, "quotient")
            from .core import Infeasible
            x, o = E.vo(a)
            if not (E.z.add(0, x, o - q * cb) and E.z.add(x, 0, q * cb + cb - 1 - o)):
                raise Infeasible()
            return q if op == "Div" else (SI(a.v, a.o - q * cb) if E.conc(a) is None else E.conc(a) - q * cb)
    if op in ("Shr",) and cb is not None and ca is None:
        return bits(E, "Div", a, 1 << cb, ti)
    if op == "BitAnd" and ca is None and cb is not None and cb & (cb + 1) == 0:
        lo, hi = E.bounds(a)
        if lo is not None and lo >= 0 and hi is not None and hi <= cb:
            return a
    if ca is None:
        ca = E.concretize(a, 300, op)
    if cb is None:
        cb = E.concretize(b, 300, op)
    if op == "Div":
        q = abs(ca) // abs(cb)
        return q if (ca < 0) == (cb < 0) else -q
    if op == "Rem":
        return ca - cb * (int(abs(ca) // abs(cb)) * (1 if (ca < 0) == (cb < 0) else -1))
    if op == "BitAnd":
        return ca & cb
    if op == "BitOr":
        return wrap(ca | cb, ti)
    if op == "BitXor":
        return wrap(ca ^ cb, ti)
    if op == "Shl":
        return wrap(ca << (cb % ti["bits"]), ti)
    if op == "Shr":
        return ca >> (cb % ti["bits"])
    raise Undecided("op " + op)


def cbinop(E, op, a, b, ti):
    if type(a) is PtrI and type(b) is PtrI and op == "Sub":
        r = ptrop(E, op, a, b)
        return Agg(None, 0, [r, False]) if r >= 0 else Agg(None, 0, [r + (1 << 64), True])
    op = op.replace("Unchecked", "")
    if op in ("Shl", "Shr"):
        cb = E.conc(b)
        if cb is None:
            if E.le(ti["bits"], b):
                return Agg(None, 0, [0, True])
            if not E.le(0, b):
                return Agg(None, 0, [0, True])
            return Agg(None, 0, [bits(E, op, a, b, ti), False])
        if not 0 <= cb < ti["bits"]:
            return Agg(None, 0, [0, True])
        return Agg(None, 0, [bits(E, op, a, b, ti), False])
    r = raw(E, op, a, b)
    if r is None:
        raise Undecided("nonlinear arithmetic")
    if type(r) is int:
        lo, hi = rng(ti)
        return Agg(None, 0, [wrap(r, ti), not lo <= r <= hi])
    k = inrange(E, r, ti)
    lo, hi = rng(ti)
    if k == 0:
        return Agg(None, 0, [r, False])
    return Agg(None, 0, [SI(r.v, r.o - k * (hi - lo + 1)), True])


def unop(E, op, a, ti):
    if op == "Not":
        if type(a) is bool:
            return not a
        a = num(E, a)
        c = E.conc(a)
        if c is None:
            c = E.concretize(a, 300, "Not")
        lo, hi = rng(ti)
        return hi - c if lo == 0 else -c - 1
    if op == "Neg":
        if type(a) is FV:
            from . import floats
            return floats.negate(E, a)
        c = E.conc(a)
        if c is not None:
            return wrap(-c, ti)
        return neg(E, a)
    if op == "PtrMetadata":
        return slen(E, a)
    raise Undecided("unop " + op)


def neg(E, a):
    """-a: a distinct variable remembered as the negation"""
    if a.v in E.negof:
        return SI(E.negof[a.v], -a.o)
    key = ("neg", a.v)
    if key not in E.facts:
        lo, hi = E.bounds(SI(a.v))
        n = E.int_var(None if hi is None else -hi, None if lo is None else -lo)
        E.facts[key] = n
        E.negof[n.v] = a.v
    n = E.facts[key]
    return SI(n.v, n.o - a.o)


def slen(E, x):
    t = type(x)
    if t is Ref:
        x = x.b[x.k]
        t = type(x)
    if t is SliceRef:
        return x.n
    if t is Agg:
        return len(x.f)
    if t is VecV:
        if type(x.l) is list:
            return len(x.l)
        return E.strlen(x.l)
    if t in (SymStr, SymBytes, str):
        return E.strlen(x)
    raise Undecided("len of %s" % t.__name__)


def rep(E, v, n):
    if n is None or int(n) > 4096:
        raise Undecided("array repeat")
    return Agg(E.p.arr_ty(), 0, [v for _ in range(int(n))])


def setd(E, a, var):
    if type(a) is not Agg:
        raise Undecided("set discriminant")
    a.var = var


def f64(bits):
    return struct.unpack("<d", struct.pack("<Q", bits))[0]


def fbits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def cast(E, kind, x, st, dt):
    if type(x) is PtrI:
        return x
    if kind == "IntToInt":
        x = num(E, x)
        if type(x) is int:
            return wrap(x, dt)
        if type(x) is not SI:
            raise Undecided("int cast of %s" % type(x).__name__)
        lo, hi = rng(dt)
        if E.le(lo, x) and E.le(x, hi):
            return x
        m = hi - lo + 1
        c = E.conc(x)
        if c is not None:
            return wrap(c, dt)
        # one or two wraps are exact
        for k in (1, -1, 2, -2):
            if E.le(lo - k * m, x) and E.le(x, hi - k * m):
                return SI(x.v, x.o + k * m)
        E.imprecise = "wrapping cast"
        return E.int_var(lo, hi)
    if kind.startswith("PointerCoercion(Unsize"):
        y = x
        t = type(y)
        if t is Ref:
            tgt = y.b[y.k]
            if type(tgt) is Agg and tgt.ty is not None and E.p.types[tgt.ty]["k"] == "array" and unsize_slice(E, dt):
                return SliceRef(tgt.f, 0, len(tgt.f))
        return x
    if kind.startswith("PointerCoercion(Reify") or kind.startswith("PointerCoercion(ClosureFn"):
        return x
    if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "BoxDerefTransmute"):
        return x
    if kind == "Transmute":
        if dt is not None and dt["k"] in ("uint", "int", "float") and type(x) is not int and type(x) is not SI:
            if type(x) is FV and x.bits is not None and dt["k"] == "uint":
                return x.bits
            raise Undecided("transmute")
        if dt is not None and dt["k"] == "float" and type(x) is int:
            return FV(bits=x)
        return x
    if kind == "IntToFloat":
        x = num(E, x)
        c = E.conc(x)
        if c is not None:
            from . import floats
            return floats.mk(float(c) if dt["s"].lower().endswith("64") else floats.f32(float(c)))
        raise Undecided("int to float")
    if kind == "FloatToFloat":
        from . import floats
        if dt["s"].lower().endswith("64"):
            return x
        return floats.mk(floats.f32(floats.val(x)))
    if kind == "FloatToInt":
        if type(x) is FV and x.bits is not None:
            v = f64(x.bits)
            lo, hi = rng(dt)
            if v != v:
                return 0
            return int(max(lo, min(hi, v if abs(v) < 1e40 else (hi if v > 0 else lo))))
        raise Undecided("float to int")
    raise Undecided("cast " + kind)


def unsize_slice(E, dt):
    if dt is None:
        return False
    if dt["k"] in ("ref", "ptr"):
        return E.p.types[dt["e"]]["k"] == "slice"
    if dt["k"] == "adt" and dt["args"]:
        return E.p.types[dt["args"][0]]["k"] == "slice"
    return False
