"""Data conversion (C22 JSON, C23 CBOR): tree in, validation value out."""
import itertools

from absint import core
from absint.core import Agg, Ref, StringV, SymStr, SymBytes, VecV, MapV, SI, FV, Obj, Panic, Diverge, Undecided, explore, replay
from absint.build import Builder, txt
from absint.vrun import site, describe
from .flat import same, unwrapv

U64 = (1 << 64) - 1


class Rej(Exception):
    pass


class VB(Builder):
    """reference conversion: data template -> value::Value, or Rej"""

    def v(self, E, d):
        e = lambda n, *a: self.en(self.value, n, *a)
        k = d[0]
        if k == "t":
            return e("Text", StringV(txt(d[1])))
        if k == "null":
            return e("Null")
        if k == "bool":
            return e("Bool", d[1])
        if k == "int":
            return e("Integer", d[1])
        if k == "float":
            t = self.p.ftype(self.value, self.p.variant(self.value, "Float"), self.p.types[self.value]["v"][self.p.variant(self.value, "Float")]["f"][0][0])
            return e("Float", Agg(t, 0, [d[1]]) if self.p.types[t]["k"] == "adt" else d[1])
        if k == "bytes":
            return e("Bytes", VecV(d[1]))
        if k == "arr":
            return e("Array", VecV([self.v(E, x) for x in d[1]]))
        if k == "map":
            ents = [[self.v(E, a), self.v(E, b)] for a, b in d[1]]
            for x, y in itertools.combinations(ents, 2):
                if total(E, x[0], y[0]):
                    raise Rej()
            return e("Map", MapV(ents, True))
        raise Rej()


def total(E, a, b):
    """are two map keys the same key?"""
    return vsame(E, a, b, lambda x, y: E.ftotal(x, y) == 0)


def vsame(E, a, b, fcmp=None):
    """identity of two value::Value trees"""
    a, b = unwrapv(a), unwrapv(b)
    if type(a) is MapV and type(b) is MapV:
        if len(a.e) != len(b.e):
            return False
        for k, v in b.e:
            for k2, v2 in a.e:
                if vsame(E, k2, k, fcmp):
                    if not vsame(E, v2, v, fcmp):
                        return False
                    break
            else:
                return False
        return True
    if type(a) is Agg and type(b) is Agg and a.ty is not None:
        E.force(a), E.force(b)
        return a.var == b.var and len(a.f) == len(b.f) and all(vsame(E, x, y, fcmp) for x, y in zip(a.f, b.f))
    if type(a) is VecV and type(b) is VecV and type(a.l) is list and type(b.l) is list:
        return len(a.l) == len(b.l) and all(vsame(E, x, y, fcmp) for x, y in zip(a.l, b.l))
    if type(a) is FV and type(b) is FV:
        if fcmp:
            return fcmp(a, b)
        return (a.bits is not None and a.bits == b.bits) or (a.id is not None and a.id == b.id)
    return same(E, a, b)


def find(P, src, byref):
    """the TryFrom impl converting `src` (by reference or by value) to value::Value"""
    out = []
    for f in P.fns:
        if f.has and f.local and f.name.endswith("::try_from") and "TryFrom<%s%s> for cddl_cat::value::Value" % ("&" if byref else "", src) in f.name.replace("'_ ", ""):
            out.append(f)
    if not out:
        raise KeyError("conversion from %s%s" % ("&" if byref else "", src))
    return out[0]


def check(P, ob, fuel=200000, max_paths=4000, deadline=None):
    """ob: (kind 'json'|'cbor', byref, template or callable)"""
    kind, byref, tm = ob
    B = VB(P)
    fn = find(P, {"json": "serde_json::Value", "cbor": "ciborium::Value"}[kind], byref)
    st = dict(paths=0, decided=0, undecided=0, infeasible=0, imprecise=0, budget=0)
    bad, und, touched = [], {}, set()

    def body(E):
        d = tm(E) if callable(tm) else tm
        src = B.json(d) if kind == "json" else B.cbor(d)
        try:
            r = P.run(E, fn, [Ref([src], 0) if byref else src])
        except Panic as e:
            return d, ("panic", e.kind, e.site), ("value",)
        except Diverge:
            return d, ("diverge",), ("value",)
        E.calls = []
        try:
            w = B.v(E, d)
        except Rej:
            w = None
        if r.var == 1:
            E.force(r.f[0])
            n = P.vname(r.f[0])
            return d, ("error", n), ("error", "ValueError") if w is None else ("value",)
        if w is None:
            return d, ("value",), ("error", "ValueError")
        if vsame(E, r.f[0], w):
            return d, ("same",), ("same",)
        return d, ("value %s" % core.show(r.f[0])[:300],), ("value %s" % core.show(w)[:300],)

    for E, (k, r) in explore(P, body, fuel, max_paths, deadline):
        st["paths"] += 1
        touched |= E.touched
        if k == "ok":
            o, cv, sv = r
            if cv == sv:
                st["decided"] += 1
            elif E.imprecise:
                st["imprecise"] += 1
            else:
                st["decided"] += 1
                path = replay(P, body, E.trace, fuel) if len(bad) < 3 else []
                bad.append(dict(code=cv, spec=sv, facts=describe(E), ob=o, path=path[-60:], where=cv[2] if cv[0] == "panic" else csite(P, fn, path)))
        else:
            st[k] += 1
            if k == "undecided":
                und[r] = und.get(r, 0) + 1
    return st, bad, und, touched


def csite(P, fn, path):
    return "%s (%s)" % (fn.name, fn.d["span"])


def leaves(kind):
    lo, hi = (-(1 << 63), U64) if kind == "json" else (-(1 << 64), U64)
    out = [("null", lambda E: ("null",)), ("true", lambda E: ("bool", True)), ("false", lambda E: ("bool", False)),
           ("int", lambda E: ("int", E.int_var(lo, hi))), ("small int", lambda E: ("int", E.int_var(-3, 3))),
           ("float", lambda E: ("float", FV(v=E.z.var(), id="f"))), ("text", lambda E: ("t", SymStr("s"))), ("empty text", lambda E: ("t", "")),
           ("[]", lambda E: ("arr", [])), ("{}", lambda E: ("map", []))]
    if kind == "cbor":
        out += [("nan", nan), ("bytes", lambda E: ("bytes", SymBytes("b"))), ("tag", lambda E: ("tag", ("t", SymStr("s")))), ("tagged int", lambda E: ("tag", ("int", 5)))]
    for v in (0, -1, (1 << 63) - 1, 1 << 63, U64, -(1 << 63)) + ((-(1 << 64), -(1 << 63) - 1) if kind == "cbor" else ()):
        out.append(("int %d" % v, lambda E, v=v: ("int", v)))
    from .vsem import FLOATS, INTS, fl
    for x in FLOATS:
        if kind == "cbor" or abs(x) < float("inf"):
            out.append(("float %r" % x, lambda E, x=x: ("float", fl(x))))
    for v in INTS:
        if lo <= v <= hi:
            out.append(("int %d!" % v, lambda E, v=v: ("int", v)))
    return out


def nan(E):
    f = FV(v=E.z.var(), id="nan")
    E.facts[("nan", "nan")] = 1
    return ("float", f)


def wraps(kind):
    T = lambda i: ("t", SymStr("w%d" % i))
    k = lambda i: ("t", SymStr("k%d" % i, {"rank": i}))
    out = [("alone", lambda x: x), ("in array", lambda x: ("arr", [x])), ("first of 3", lambda x: ("arr", [x, T(0), ("null",)])), ("last of 3", lambda x: ("arr", [T(0), ("int", 4), x])),
           ("middle of 3", lambda x: ("arr", [("bool", True), x, T(0)])), ("in nested array", lambda x: ("arr", [("arr", [T(1)]), ("arr", [("null",), ("arr", [x])])])),
           ("entry", lambda x: ("map", [(k(0), x)])), ("first entry", lambda x: ("map", [(k(0), x), (k(1), T(0)), (k(2), ("int", 1))])),
           ("last entry", lambda x: ("map", [(k(0), T(0)), (k(1), ("null",)), (k(2), x)])), ("nested entry", lambda x: ("map", [(k(0), ("map", [(k(1), x), (k(2), T(0))])), (k(3), ("arr", [x]))])),
           ("entry in array", lambda x: ("arr", [T(0), ("map", [(k(0), x)])]))]
    if kind == "cbor":
        out += [("key", lambda x: ("map", [(x, T(0))])), ("second key", lambda x: ("map", [(("null",), T(0)), (x, T(1))])), ("equal keys", lambda x: ("map", [(x, T(0)), (x, T(1))])),
                ("separated equal keys", lambda x: ("map", [(x, T(0)), (("bool", True), T(1)), (x, T(1))])),
                ("equal keys nested", lambda x: ("arr", [("null",), ("map", [(k(0), ("map", [(x, T(0)), (x, T(0))]))])])),
                ("key in key", lambda x: ("map", [(("map", [(x, T(0))]), T(1))])), ("array key", lambda x: ("map", [(("arr", [x, T(0)]), T(1))])), ("tagged", lambda x: ("tag", x)),
                ("key of other keys", lambda x: ("map", [(x, T(0)), (("t", SymStr("q1")), T(1)), (("t", SymStr("q2")), T(2))])),
                ("same key as entry", lambda x: ("map", [(k(0), x), (k(0), T(1))]))]
    return out


def obligations(kind, tier="quick"):
    out = []
    L, W = leaves(kind), wraps(kind)
    for ln, lf in L:
        for wn, wf in W:
            for byref in (True, False):
                out.append(("%s %s %s%s" % (kind, ln, wn, "" if byref else " (by value)"), (kind, byref, lambda E, lf=lf, wf=wf: wf(lf(E)))))
    for (wn, wf), (wn2, wf2) in itertools.product(W, W):
        for ln, lf in (L if tier != "quick" else L[3:4] + L[5:7] + L[10:14]):
            out.append(("%s %s %s %s" % (kind, ln, wn, wn2), (kind, True, lambda E, lf=lf, wf=wf, wf2=wf2: wf2(wf(lf(E))))))
    for n in range(0, 6):
        out.append(("%s array of %d" % (kind, n), (kind, True, ("arr", [("t", SymStr("e%d" % i)) for i in range(n)]))))
        out.append(("%s map of %d" % (kind, n), (kind, True, ("map", [(("t", SymStr("k%d" % i, {"rank": i})), ("t", SymStr("e%d" % i))) for i in range(n)]))))
    if kind == "cbor":
        for n in range(2, 4):
            out.append(("%s map of %d arbitrary text keys" % (kind, n), (kind, True, ("map", [(("t", SymStr("k%d" % i)), ("t", SymStr("e%d" % i))) for i in range(n)]))))
            out.append(("%s map of %d arbitrary byte keys" % (kind, n), (kind, True, ("map", [(("bytes", SymBytes("k%d" % i)), ("t", SymStr("e%d" % i))) for i in range(n)]))))
            out.append(("%s map of %d arbitrary int keys" % (kind, n), (kind, True, lambda E, n=n: ("map", [(("int", E.int_var(-(1 << 64), U64)), ("t", SymStr("e%d" % i))) for i in range(n)]))))
            out.append(("%s map of %d arbitrary float keys" % (kind, n), (kind, True, lambda E, n=n: ("map", [(("float", FV(v=E.z.var(), id="fk%d" % i)), ("t", SymStr("e%d" % i))) for i in range(n)]))))
    return out
