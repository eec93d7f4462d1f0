"""Obligation families for the validation semantics (C01-C18)."""
import itertools

from absint.core import SI, FV, SymStr, SymBytes
from absint.run import name_of
from . import gen
from .gen import Shapes, obligation, texts, sample, has, L, OCC

U64 = (1 << 64) - 1


def named(obs, seed=1, cap=None):
    out, seen = [], set()
    for o in obs:
        n = name_of(o)
        if n not in seen:
            seen.add(n)
            out.append((n, o))
    return sample(out, cap, seed) if cap else out


# ------------------------------------------------------------------ arrays
def arrays(kinds, need, exact, samp, lens=(0, 1, 2, 3), seed=1, occs=OCC, leaf=(L,)):
    """array schemas: all shapes up to size `exact`, a sample of bigger ones"""
    S = Shapes(kinds, occs, leaf)
    out = []
    for n in range(1, exact + 1):
        out += [s for s in S.s(n)]
    for n, c in samp:
        out += sample(S.s(n), c, seed + n)
    out = [s for s in out if not need or any(has(s, k) for k in need)]
    return [obligation(("arr", s), ("arr", texts(d))) for s in out for d in lens]


# ------------------------------------------------------------------ maps
def mdata(n):
    return ("map", [(("t", i), ("t", 10 + i)) for i in range(n)])


K0, K1 = ("lit0",), ("lit1",)


def key(i):
    return SymStr("t%d" % i, {"rank": i})


KVS = (("kvl", key(0), L, True), ("kvl", key(0), L, False), ("kvl", key(1), L, True), ("KV", L, L, True), ("KV", L, L, False))
KVS2 = (("kvl", key(0), L, True), ("KV", L, L, False))


def maps(kinds, need, exact, samp, lens=(0, 1, 2), seed=1, occs=OCC, leaf=KVS):
    S = Shapes(kinds, occs, leaf)
    out = []
    for n in range(1, exact + 1):
        out += [s for s in S.s(n)]
    for n, c in samp:
        if n <= 3:
            out += sample(S.s(n), c, seed + n)
        else:
            out += rand_seqs(S, n, c, seed + n)
    out = [s for s in out if not need or any(has(s, k) for k in need)]
    return [obligation(("map", s), mdata(d), "map") for s in out for d in lens]


def rand_seqs(S, n, c, seed):
    """c pseudo-random member sequences of total size n (without enumerating all)"""
    import random
    r = random.Random(seed)
    out = []
    while len(out) < c:
        k = r.randint(1, n)
        p = r.choice(list(gen.parts(n, k)))
        if any(x > 3 for x in p):
            p = tuple(min(x, 3) for x in p)
        out.append(tuple(r.choice(S.m(x)) for x in p if S.m(x)))
    return out


AK = {"occ", "grp", "unwrap", "gref", "gchoice", "tchoice"}
MK = {"occ", "grp", "unwrap", "gref", "gchoice"}


def tier(t, q, th):
    return q if t == "quick" else th


# ------------------------------------------------------------------ C01
def broken(i=0):
    """constructs that are schema errors when needed"""
    X = ("lit", 1)
    return [("miss",), ("rule", "gen"), ("rule", "gen", ("re", 90), ("re", 91)), ("grp", ()), ("grp", (L, L)),
            ("range", X, ("lit", "x"), True), ("range", ("prel", "Int"), X, True), ("range", X, ("rule", "nope"), True),
            ("ctl", "lt", ("prel", "Tstr"), X), ("ctl", "ge", ("rule", "nope"), X), ("ctl", "gt", ("prel", "Int"), ("rule", "nope")),
            ("ctl", "le", ("prel", "Int"), ("lit", "x")),
            ("ctl", "size", ("prel", "Int"), X), ("ctl", "size", ("prel", "Tstr"), ("lit", -1)),
            ("ctl", "size", ("rule", "nope"), X), ("ctl", "size", ("prel", "Tstr"), ("rule", "nope")),
            ("cfyrule",), ("unwrapmiss",), ("cfymiss",)]


class BF(gen.Finisher):
    def t(self, x):
        if x[0] == "cfyrule":
            return ("cfy", self.named(L))
        if x[0] == "cfymiss":
            return ("cfy", "nope")
        if x[0] == "unwrapmiss":
            return ("unwrap", "nope")
        if x[0] == "rule" and len(x) == 2 and x[1] == "gen" or x[0] == "rule" and x[1] == "gen":
            self.env["gen"] = (["P"], ("rule", "P"))
            return x
        return gen.Finisher.t(self, x)


def bob(root, data, ctx):
    f = BF(ctx)
    r = f.t(root)
    return dict(env=f.env, root=([], r), data=data)


def count(t, k):
    if isinstance(t, tuple):
        return int(len(t) > 0 and t[0] == k) + sum(count(x, k) for x in t)
    return 0


def subst(t, k, new):
    if isinstance(t, tuple):
        if len(t) > 0 and t[0] == k:
            return new
        return tuple(subst(x, k, new) for x in t)
    return t


def c01(t):
    out = []
    B = ("B",)
    occs = [("?",), ("*",), ("+",), ("n", 0, 0), ("n", 1, 2)]
    bs = broken()
    # arrays
    S = Shapes(AK | {"cfy", "cfyi", "mref"}, occs, (L, B))
    seqs = S.s(1) + S.s(2) + [s for s in S.s(3)] + sample([s for s in S.s(4) if count(s, "B") == 1], tier(t, 1500, 9000), 1)
    seqs = [s for s in seqs if count(s, "B") == 1]
    for s in seqs:
        for d in (0, 1, 2):
            out.append(bob(("arr", subst(s, "B", ("miss",))), ("arr", texts(d)), "arr"))
    for s in [x for x in seqs if size(x) <= 3]:
        for b in bs[1:]:
            out.append(bob(("arr", subst(s, "B", b)), ("arr", texts(2)), "arr"))
            out.append(bob(("arr", subst(s, "B", b)), ("arr", texts(1)), "arr"))
    # maps: broken key, value, member
    leafs = (("KV", L, L, True), ("KV", L, L, False), ("kvl", key(0), L, True), ("KV", B, L, False), ("KV", B, L, True),
             ("KV", L, B, True), ("KV", L, B, False), ("kvl", key(0), B, True), ("kvl", key(1), B, False), ("BM",))
    S = Shapes(MK | {"cfy", "cfyi"}, occs, leafs)
    one = lambda s: count(s, "B") + count(s, "BM") == 1
    seqs = [s for s in S.s(1) + S.s(2) if one(s)] + sample([s for s in S.s(3) if one(s)], tier(t, 1500, 8000), 2)
    for s in seqs:
        for d in (0, 1, 2):
            out.append(bob(("map", subst(subst(s, "BM", ("miss",)), "B", ("miss",))), mdata(d), "map"))
    for s in [x for x in S.s(1) + S.s(2) if one(x)]:
        for b in bs[1:]:
            if count(s, "BM") and b[0] in ("grp",):
                continue
            for d in (1, 2):
                out.append(bob(("map", subst(subst(s, "BM", b), "B", b)), mdata(d), "map"))
    # types
    S = Shapes({"tchoice", "mref", "cfy", "cfyi"}, occs, (L, B))
    for n in range(1, tier(t, 5, 6)):
        for m in S.m(n):
            if count(m, "B") == 1:
                for b in bs if n <= 3 else bs[:1]:
                    out.append(bob(subst(m, "B", b), ("t", 0), "arr"))
    # nesting: broken element inside a nested container inside an alternative
    for b in bs:
        for inner, d in ((("arr", (b,)), ("arr", texts(1))), (("map", (("KV", b, L, True),)), mdata(1)),
                         (("map", (("KV", L, b, True),)), mdata(1)), (("arr", (("occ", ("*",), b),)), ("arr", texts(1)))):
            out.append(bob(("choice", (inner, ("prel", "Any"))), d, "arr"))
            out.append(bob(("arr", (("occ", ("?",), inner), ("prel", "Any"))), ("arr", [d]), "arr"))
            out.append(bob(("map", (("occ", ("*",), ("KV", L, inner, False)), ("occ", ("*",), ("KV", L, L, False)))),
                           ("map", [(("t", 0), d)]), "map"))
        e = SymBytes("emb", {"tmpl": ("t", 0)})
        out.append(bob(("choice", (("ctl", "cbor", ("prel", "Bstr"), b), ("prel", "Any"))), ("bytes", e), "arr"))
    return named(out)


def size(t):
    return sum(count(t, k) for k in ("L", "B", "occ", "grp", "unwrap", "gref", "choice", "cfy", "cfyi", "mref", "BM")) if isinstance(t, tuple) else 0


# ------------------------------------------------------------------ C02
def c02(t):
    need = ("occ", "choice", "grp", "unwrap", "gref")
    out = arrays(AK | {"empty"}, need, 3, [(4, tier(t, 2300, 2300)), (5, tier(t, 2500, 20000)), (6, tier(t, 0, 8000))] if t != "quick"
                 else [(4, 2300), (5, 2000)], (1, 2, 3))
    out += maps(MK, need, 2, [(3, tier(t, 900, 6000)), (4, tier(t, 500, 6000))], (1, 2))
    # three levels of nested groups, completed then failed, in arrays and maps
    for w in itertools.product(("grp", "gref", "unwrap", "occ*", "occ?", "choice"), repeat=2 if t == "quick" else 3):
        def wrap(k, s):
            if k == "occ*":
                return ("occ", ("*",), ("grp", s))
            if k == "occ?":
                return ("occ", ("?",), ("grp", s))
            if k == "choice":
                return ("choice", (("grp", s), ("grp", (L,))))
            return (k, s)
        inner = (wrap(w[0], (L,)), L)
        for k in w[1:]:
            inner = (wrap(k, inner), L)
        for o in (("?",), ("*",)):
            sch = (("occ", o, ("grp", inner)), L)
            out += [obligation(("arr", sch), ("arr", texts(n))) for n in (1, 2, 3)]
        ml = lambda s: subst(s, "L", ("KV", L, L, False))
        out.append(obligation(("map", (("occ", ("?",), ("grp", mapleaf(inner))), ("occ", ("*",), ("KV", L, L, False)))), mdata(2), "map"))
    out += attempts(t)
    return named(out)


def attempts(t, seed=2):
    """an attempt at a group of two or three members (optional, repeated, named, unwrapped, an alternative), followed by members that need what it may have taken"""
    mem = [("kvl", key(0), L, True), ("kvl", key(0), L, False), ("kvl", key(1), L, True), ("KV", L, L, True), ("KV", L, L, False), ("occ", ("?",), ("kvl", key(1), L, True)),
           ("occ", ("*",), ("KV", L, L, False))]
    pairs = [p for p in itertools.product(mem[:5] + mem[5:6], repeat=2)]
    rests = [(("occ", ("*",), ("KV", L, L, False)),), (("occ", ("*",), ("KV", L, L, True)),), (("kvl", key(0), L, True), ("occ", ("*",), ("KV", L, L, False)))]
    out = []

    def kinds(g):
        yield ("occ", ("?",), ("grp", g))
        yield ("occ", ("*",), ("grp", g))
        yield ("occ", ("n", 0, 2), ("grp", g))
        yield ("occ", ("?",), ("gref", g))
        yield ("occ", ("?",), ("unwrap", g))
        yield ("choice", (("grp", g), ("grp", (mem[4],))))
        yield ("choice", (("grp", g), ("grp", ())))
        yield ("occ", ("?",), ("grp", (("grp", g),)))
        yield ("occ", ("?",), ("grp", (("gref", g), mem[4])))
    for g in pairs:
        for c in kinds(g):
            for r in rests:
                for d in (1, 2, 3):
                    out.append(obligation(("map", (c,) + r), mdata(d), "map"))
    for g, h in itertools.product(pairs, repeat=2):
        c = ("choice", (("grp", g), ("grp", h)))
        for d in (1, 2):
            out.append(obligation(("map", (c,)), mdata(d), "map"))
            out.append(obligation(("map", (("occ", ("*",), c), rests[0][0])), mdata(d), "map"))
    for a in (L, ("occ", ("?",), L), ("occ", ("*",), L), ("gref", (L, L)), ("choice", (("grp", (L, L)), L))):
        for g in itertools.product((L, ("occ", ("*",), L), ("gref", (L,)), ("arr", (L,))), repeat=2):
            for c in kinds(g):
                if has(c, "KV"):
                    c = subst(c, "KV", L)
                for d in (1, 2, 3):
                    out.append(obligation(("arr", (c, a)), ("arr", texts(d))))
    return sample(out, tier(t, 2500, 20000), seed)


def mapleaf(t, i=0):
    """replace element leaves by members with alternating literal keys"""
    n = [0]

    def go(x):
        if x == L:
            n[0] += 1
            return ("kvl", key((n[0] - 1) % 2), L, False)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(t)


# ------------------------------------------------------------------ C03
def c03(t):
    out = arrays(AK | {"mref", "empty"}, None, 3, [(4, tier(t, 1500, 6000)), (5, tier(t, 0, 6000))] if t != "quick" else [(4, 1500)],
                 (0, 1, 2, 3, 4), seed=7)
    out += maps(MK, None, 2, [(3, tier(t, 700, 5000))], (0, 1, 2, 3), seed=7)
    # nested containers as members
    for inner in ((L,), (L, L), (("occ", ("*",), L),), ()):
        for o in (None, ("?",), ("*",), ("+",)):
            for k, dd in (("arr", [("arr", texts(i)) for i in (0, 1, 2)]), ):
                m = ("arr", inner)
                m = ("occ", o, m) if o else m
                for n in itertools.product(dd, repeat=2):
                    out.append(obligation(("arr", (m, L)), ("arr", list(n))))
                    out.append(obligation(("arr", (m,)), ("arr", list(n))))
                out.append(obligation(("map", (("KV", L, ("arr", inner), True),)), ("map", [(("t", 0), dd[1])]), "map"))
                out.append(obligation(("arr", (("map", tuple(("kvl", key(i), L, True) for i in range(len(inner)))),)),
                                      ("arr", [mdata(2)])))
    for sch in (("arr", (L,)), ("map", (("KV", L, L, True),)), ("arr", ()), ("map", ())):
        for d in kinds_plain():
            out.append(obligation(sch, d))
    return named(out)


def kinds_plain():
    return [("null",), ("bool", True), ("int", 3), ("t", 0), ("bytes", SymBytes("b0")), ("arr", []), ("map", []),
            ("float", FV(bits=0x3ff0000000000000)), ("arr", texts(1)), mdata(1)]


# ------------------------------------------------------------------ C04
def c04(t):
    out = arrays({"occ", "grp", "gref", "unwrap", "empty", "gchoice"}, ("occ",), 3,
                 [(4, tier(t, 1500, 5000)), (5, tier(t, 600, 8000))], (0, 1, 2, 3), seed=3,
                 occs=OCC + [("n", 1, 1), ("n", 2, 3), ("n", 3, 1)])
    out += maps({"occ", "grp", "gref", "empty"}, ("occ",), 2, [(3, tier(t, 900, 5000))], (0, 1, 2), seed=3,
                occs=OCC + [("n", 2, 3), ("n", 2, 1)], leaf=KVS2)

    # symbolic limits: all n*m at once
    def sym(mk, d):
        def ob(E):
            lo, hi = E.int_var(0, U64), E.int_var(0, U64)
            return dict(env={}, root=([], mk(("n", lo, hi))), data=d)
        return ob
    res = named(out)
    for d in range(0, tier(t, 4, 5)):
        for nm, mk in (("[n*m T0]", lambda o: ("arr", [("occ", o, ("re", 0))])),
                       ("[n*m (T0), T1]", lambda o: ("arr", [("occ", o, ("grp", [("re", 0)])), ("occ", ("*",), ("re", 1))])),
                       ("[n*m ()]", lambda o: ("arr", [("occ", o, ("grp", [])), ("occ", ("*",), ("re", 1))])),
                       ("[n*m (?T0)]", lambda o: ("arr", [("occ", o, ("grp", [("occ", ("?",), ("re", 0))]))])),
                       ("[n*m (T0 // T1,T2)]", lambda o: ("arr", [("occ", o, ("choice", [("grp", [("re", 0)]), ("grp", [("re", 1), ("re", 2)])]))]))):
            res.append(("schema %s with symbolic n, m on %d elements" % (nm, d), sym(mk, ("arr", texts(d)))))
        for nm, mk in (("{n*m T0=>T1}", lambda o: ("map", [("occ", o, ("kv", ("re", 0), ("re", 1), False))])),
                       ("{n*m T0:T1}", lambda o: ("map", [("occ", o, ("kv", ("re", 0), ("re", 1), True)), ("occ", ("*",), ("kv", ("re", 2), ("re", 3), True))])),
                       ("{n*m ()}", lambda o: ("map", [("occ", o, ("grp", []))]))):
            if d < 4:
                res.append(("schema %s with symbolic n, m on %d entries" % (nm, d), sym(mk, mdata(d))))
    return res


# ------------------------------------------------------------------ C05
def c05(t):
    need = ("choice", "cfy", "cfyi")
    out = arrays({"gchoice", "tchoice", "cfy", "cfyi", "occ", "gref", "mref"}, need, 3,
                 [(4, tier(t, 2000, 9000)), (5, tier(t, 400, 6000))], (0, 1, 2), seed=5, occs=[("?",), ("*",)])
    out += maps({"gchoice", "occ", "gref", "grp"}, need, 3, [(4, tier(t, 600, 6000))], (0, 1, 2), seed=5, occs=[("?",), ("*",)], leaf=KVS2)
    # type choices of 1..4 options, mixed literals and kinds
    S = Shapes({"tchoice", "cfy", "cfyi", "mref", "arr"}, [], (L,))
    for n in range(1, 5):
        for m in S.m(n):
            if m[0] in ("choice", "cfy", "cfyi", "mref"):
                out.append(obligation(m, ("t", 0)))
                out.append(obligation(m, ("arr", texts(1))))
    for n in range(1, 5):
        out.append(obligation(("choice", (L,) * n), ("t", 0)))
        out.append(obligation(("cfyi", (L,) * n), ("t", 0)))
        out.append(obligation(("cfy", (L,) * n), ("t", 0)))
    # & over groups with keys, nested group names, arrays as values
    KV = ("KV", L, L, True)
    items = [L, KV, ("gref", (L,)), ("gref", (KV, L)), ("gref", (("gref", (KV,)),)), ("mref", ("grp", (L, L)))]
    for k in ("cfy", "cfyi"):
        for a in itertools.product(items, repeat=2):
            if k == "cfyi" and False:
                continue
            out.append(obligation((k, a), ("t", 0)))
            out.append(obligation(("arr", ((k, a), ("occ", ("?",), L))), ("arr", texts(2))))
    # & of groups whose values are groups, inside a map
    G = lambda *m: ("grp", m)
    gv = [("KV", L, G(("kvl", key(0), L, False)), False), ("KV", L, G(("kvl", key(1), L, False), ("kvl", key(0), L, False)), False),
          G(("kvl", key(0), L, False)), ("gref", (("KV", L, G(("kvl", key(0), L, True)), False),)), ("gref", (G(("kvl", key(1), L, False)),))]
    for k in ("cfy", "cfyi"):
        for a in itertools.product(gv, repeat=2):
            for d in (0, 1, 2):
                out.append(obligation(("map", ((k, a), ("occ", ("*",), ("KV", L, L, False)))), mdata(d), "map"))
    return named(out)


# ------------------------------------------------------------------ C06
def c06(t):
    leaf = (("kvl", key(0), L, True), ("kvl", key(0), L, False), ("KV", L, L, True), ("KV", L, L, False))
    out = maps({"occ", "grp", "gref", "gchoice", "unwrap"}, None, 2, [(3, tier(t, 1500, 9000)), (4, tier(t, 800, 8000))], (1, 2), seed=11,
               occs=[("?",), ("*",), ("+",)], leaf=leaf)
    # nested maps: the effect must not leak out
    for c1, c2, c3 in itertools.product((True, False), repeat=3):
        inner = ("map", (("kvl", key(0), L, c1), ("occ", ("?",), ("kvl", key(1), L, c2))))
        outer = ("map", (("occ", ("*",), ("KV", L, inner, c3)), ("occ", ("*",), ("KV", L, ("prel", "Any"), False))))
        for d in (1, 2):
            out.append(obligation(outer, ("map", [(("t", 0), mdata(d))]), "map"))
            out.append(obligation(("choice", (inner, ("map", (("occ", ("*",), ("KV", L, L, True)),)))), mdata(d), "map"))
            out.append(obligation(("arr", (("occ", ("?",), inner), ("prel", "Any"))), ("arr", [mdata(d)])))
            out.append(obligation(("map", (("kvl", key(0), ("choice", (inner, L)), c3),)), ("map", [(("t", 0), mdata(d))]), "map"))
    return named(out)


# ------------------------------------------------------------------ C07
def c07(t):
    out = maps({"occ", "gref", "unwrap"}, None, 3, [(3, tier(t, 800, 6000)), (4, tier(t, 300, 4000))], (0, 1, 2, 3), seed=13,
               occs=[("?",), ("*",)], leaf=(("kvl", key(1), L, False), ("KV", L, L, False), ("KV", L, L, True)))
    # array labels
    for k in (("lit", "x"), ("re", 80), ("miss",), ("prel", "Int"), ("rule", "nope")):
        for cut in (True, False):
            for o in (None, ("?",), ("*",)):
                m = ("KV", k, L, cut)
                m = ("occ", o, m) if o else m
                for d in (0, 1, 2):
                    out.append(obligation(("arr", (m, ("occ", ("?",), L))), ("arr", texts(d))))
                    out.append(obligation(("arr", (("gref", (m,)),)), ("arr", texts(d))))
                    out.append(obligation(("arr", (("grp", (m, m)),)), ("arr", texts(d))))
    res = named(out)
    # keys of every kind, symbolic literal keys against symbolic data keys
    for nm, kd in sym_kinds():
        for nl, lit in sym_literals():
            def ob(E, kd=kd, lit=lit):
                return dict(env={}, root=([], ("map", [("kv", ("lit", lit(E)), ("re", 0), False),
                                                       ("occ", ("*",), ("kv", ("prel", "Any"), ("re", 1), False))])),
                            data=("map", [(kd(E), ("t", 1))]))
            res.append(("schema {literal %s => T0, * any => T1} on {%s: t1}" % (nl, nm), ob))
        for p in PREL:
            def ob(E, kd=kd, p=p):
                return dict(env={}, root=([], ("map", [("kv", ("prel", p), ("re", 0), True)])), data=("map", [(kd(E), ("t", 1))]))
            res.append(("schema {%s => T0} on {%s: t1}" % (p, nm), ob))
    # two entries with integer / mixed keys
    for a, b in itertools.product((("int", 1), ("int", 2), ("t", 0), ("bool", True), ("null",)), repeat=2):
        if a == b:
            continue
        for lk in (1, 2, True):
            o = dict(env={}, root=([], ("map", [("kv", ("lit", lk), ("re", 0), True), ("occ", ("*",), ("kv", ("prel", "Any"), ("re", 1), False))])),
                     data=("map", [(a, ("t", 1)), (b, ("t", 2))]))
            res.append((name_of(o), o))
    return res


PREL = ("Any", "Nil", "Bool", "Int", "Uint", "Nint", "Float", "Tstr", "Bstr")


def sym_float(E, name, nan=True):
    f = FV(v=E.z.var(), id=name)
    if nan:
        E.facts[("nan", name)] = E.choose(2, "%s is NaN" % name) == 1
    return f


def sym_kinds():
    """every kind of data value, with unconstrained content"""
    return [("null", lambda E: ("null",)), ("true", lambda E: ("bool", True)), ("false", lambda E: ("bool", False)),
            ("int i", lambda E: ("int", E.int_var(-(1 << 64), U64))),
            ("float f", lambda E: ("float", sym_float(E, "f"))),
            ("bytes b", lambda E: ("bytes", SymBytes("b"))), ("text s", lambda E: ("t", SymStr("s"))),
            ("[]", lambda E: ("arr", [])), ("[t5]", lambda E: ("arr", [("t", 5)])), ("{}", lambda E: ("map", [])),
            ("{t5:t6}", lambda E: ("map", [(("t", 5), ("t", 6))]))]


def sym_literals():
    return [("int k", lambda E: E.int_var(-(1 << 64), U64)), ("text l", lambda E: SymStr("l")), ("true", lambda E: True),
            ("false", lambda E: False), ("bytes c", lambda E: SymBytes("c")), ("float g", lambda E: sym_float(E, "g", False))]


def wraps():
    """contexts in which a type t is applied to one datum d"""
    return [("", lambda n: n, lambda d: d), ("in [ ]", lambda n: ("arr", [n]), lambda d: ("arr", [d])),
            ("as map value", lambda n: ("map", [("kv", ("prel", "Any"), n, False)]), lambda d: ("map", [(("t", 7), d)])),
            ("as map key", lambda n: ("map", [("kv", n, ("prel", "Any"), False)]), lambda d: ("map", [(d, ("t", 7))])),
            ("as second option", lambda n: ("choice", [("lit", "zz"), n]), lambda d: d),
            ("as * element", lambda n: ("arr", [("occ", ("*",), n)]), lambda d: ("arr", [d])),
            ("through a rule", lambda n: ("rule", "x"), lambda d: d)]


def fl(x):
    import struct
    return FV(bits=struct.unpack("<Q", struct.pack("<d", x))[0])


FLOATS = [0.0, -0.0, 1.0, -1.0, 1.5, -2.0, 5.0, 255.0, 256.0, 4096.0, 0.1, -0.1, 1e-7, 3.4e38, 1e30, 1e300, 2.0 ** 31, 2.0 ** 32, 2.0 ** 53, 2.0 ** 63, 2.0 ** 64,
          -2.0 ** 63, 5e-324, 1e-40, float("inf"), float("-inf"), float("nan"), 16777217.0, 0.30000000000000004]
INTS = [0, 1, -1, 2, 5, 23, 24, 127, 128, 255, 256, -128, -129, 4096, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 53, (1 << 53) + 1, (1 << 63) - 1,
        1 << 63, (1 << 64) - 1, -(1 << 63), -(1 << 63) - 1, -(1 << 64), 16777217]


def known_scalars(lits, bits=False):
    """(name, literal or None, datum): pairs of known numbers"""
    num = [("float %r" % x, fl(x)) for x in FLOATS] + [("int %d" % x, x) for x in INTS]
    for nd, d in num:
        yield nd, d, ("float", d) if type(d) is FV else ("int", d)


def close(x, y):
    """known numbers worth comparing: equal as numbers, neighbours, or of different kind"""
    import struct
    f = lambda v: struct.unpack("<d", struct.pack("<Q", v.bits))[0] if type(v) is FV else v
    a, b = f(x), f(y)
    if a != a or b != b:
        return True
    if type(x) is FV and type(y) is FV:
        return abs(a) == abs(b) or a - b in (0.5, -0.5, 1, -1) or a in (0, 1) or b in (0, 1) or abs(a - b) < 1e-6 * abs(a)
    if abs(a) == float("inf") or abs(b) == float("inf"):
        return True
    return int(a) == int(b) or abs(int(a) - int(b)) in (1, 256, 1 << 32, 1 << 64) or int(a) & 0xff == int(b) & 0xff


def c08(t):
    out = []
    for p in PREL:
        for nd, v, d in known_scalars(None):
            out.append(("schema %s on %s" % (p, nd), dict(env={}, root=([], ("prel", p)), data=d)))
    for p in PREL:
        for nm, kd in sym_kinds():
            for wn, ws, wd in wraps():
                def ob(E, p=p, kd=kd, ws=ws, wd=wd):
                    n = ("prel", p)
                    return dict(env={"x": ([], n)}, root=([], ws(n)), data=wd(kd(E)))
                out.append(("schema %s %s on %s" % (p, wn, nm), ob))
    return out


def c09(t):
    out = []
    for nl, l, _ in known_scalars(None):
        if type(l) is FV and l.bits & 0x7ff0000000000000 == 0x7ff0000000000000:
            continue
        for nd, v, d in known_scalars(None):
            if type(l) is FV and type(v) is FV and {l.bits, v.bits} == {0, 1 << 63}:
                continue            # 0.0 and -0.0: the specification does not say
            if close(l, v):
                out.append(("schema literal %s on %s" % (nl, nd), dict(env={}, root=([], ("lit", l)), data=d)))
    for nl, l in (("''", ""), ("'1'", "1"), ("'a'", "a"), ("'A'", "A"), ("'a '", "a "), ("'\u00e9'", "\u00e9"), ("'e\u0301'", "e\u0301"), ("'true'", "true"), ("'null'", "null")):
        for nd, d in [("text %r" % x, ("t", x)) for x in ("", "1", "a", "A", "a ", " a", "\u00e9", "e\u0301", "\u00c9", "true", "null", "aa")] + [
                ("int 1", ("int", 1)), ("true", ("bool", True)), ("null", ("null",)), ("float 1", ("float", fl(1.0)))]:
            out.append(("schema literal %s on %s" % (nl, nd), dict(env={}, root=([], ("lit", l)), data=d)))
            out.append(("schema {literal %s => any} on {%s: 1}" % (nl, nd), dict(env={}, root=([], ("map", [("kv", ("lit", l), ("prel", "Any"), True)])), data=("map", [(d, ("int", 1))]))))
    for nl, lit in sym_literals():
        for nm, kd in sym_kinds():
            for wn, ws, wd in wraps():
                def ob(E, lit=lit, kd=kd, ws=ws, wd=wd):
                    n = ("lit", lit(E))
                    return dict(env={"x": ([], n)}, root=([], ws(n)), data=wd(kd(E)))
                out.append(("schema literal %s %s on %s" % (nl, wn, nm), ob))
    # equality of two literals in one choice against one datum
    def ob2(E):
        return dict(env={}, root=([], ("choice", [("lit", E.int_var(-(1 << 64), U64)), ("lit", E.int_var(-(1 << 64), U64))])),
                    data=("int", E.int_var(-(1 << 64), U64)))
    out.append(("schema k1 / k2 on int i", ob2))
    return out


# ------------------------------------------------------------------ C10
def endpoint_forms(name):
    """ways to write an endpoint: directly, via a rule, two rules, a generic parameter"""
    return [("direct", lambda v, env: v), ("rule", lambda v, env: (env.__setitem__(name, ([], v)), ("rule", name))[1]),
            ("rule of rule", lambda v, env: (env.__setitem__(name, ([], v)), env.__setitem__(name + "2", ([], ("rule", name))),
                                             ("rule", name + "2"))[2])]


def c10(t):
    out = []
    for incl in (True, False):
        for (a, b) in [(0.0, 1.0), (-1.0, 1.0), (0.1, 0.30000000000000004), (1.0, 1.0), (-2.0, 5.0), (5e-324, 1e300), (0.0, 4096.0), (2.0 ** 53, 2.0 ** 64), (1.5, 0.1)]:
            for nd, v, d in known_scalars(None):
                out.append(("schema (%r %s %r) on %s" % (a, ".." if incl else "...", b, nd), dict(env={}, root=([], ("range", ("lit", fl(a)), ("lit", fl(b)), incl)), data=d)))
        for (a, b) in [(0, 1), (-1, 1), (0, 255), (-128, 127), (1, 1), (5, -5), (0, (1 << 64) - 1), (-(1 << 64), -1), (1 << 53, (1 << 53) + 1), (0, 1 << 63), (-(1 << 63), 1 << 32)]:
            for nd, v, d in known_scalars(None):
                out.append(("schema (%r %s %r) on %s" % (a, ".." if incl else "...", b, nd), dict(env={}, root=([], ("range", ("lit", a), ("lit", b), incl)), data=d)))
    lits = sym_literals()
    for incl in (True, False):
        for (na, la), (nb, lb) in itertools.product(lits, repeat=2):
            lb2 = lb if na != nb else None
            for nm, kd in sym_kinds():
                def ob(E, la=la, lb=lb, kd=kd, incl=incl, na=na, nb=nb):
                    a = la(E)
                    if na == nb and na.startswith("float"):
                        b = sym_float(E, "g2", False)
                    elif na == nb and na.startswith("text"):
                        b = SymStr("l2")
                    elif na == nb and na.startswith("bytes"):
                        b = SymBytes("c2")
                    else:
                        b = lb(E)
                    return dict(env={}, root=([], ("range", ("lit", a), ("lit", b), incl)), data=kd(E))
                out.append(("schema (%s %s %s) on %s" % (na, ".." if incl else "...", nb, nm), ob))
        for (fa, A), (fb, B) in itertools.product(endpoint_forms("a"), endpoint_forms("b")):
            for kind in ("int", "float"):
                for wn, ws, wd in wraps():
                    def ob(E, A=A, B=B, kind=kind, ws=ws, wd=wd, incl=incl):
                        env = {}
                        if kind == "int":
                            a, b, v = E.int_var(-(1 << 64), U64), E.int_var(-(1 << 64), U64), ("int", E.int_var(-(1 << 64), U64))
                        else:
                            a, b, v = sym_float(E, "g", False), sym_float(E, "h", False), ("float", sym_float(E, "f"))
                        n = ("range", A(("lit", a), env), B(("lit", b), env), incl)
                        env["x"] = ([], n)
                        return dict(env=env, root=([], ws(n)), data=wd(v))
                    out.append(("schema (%s %s a%sb via %s,%s) %s on %s v" % (kind, "range", ".." if incl else "...", fa, fb, wn, kind), ob))
        # generic parameters as endpoints
        def og(E, incl=incl):
            a, b = E.int_var(-(1 << 64), U64), E.int_var(-(1 << 64), U64)
            return dict(env={"g": (["A", "B"], ("range", ("rule", "A"), ("rule", "B"), incl)), "lo": ([], ("lit", a))},
                        root=([], ("rule", "g", ("rule", "lo"), ("lit", b))), data=("int", E.int_var(-(1 << 64), U64)))
        out.append(("schema g<lo, b> with g<A,B> = A%sB" % (".." if incl else "..."), og))
        # bad endpoints
        for bad in (("prel", "Int"), ("arr", []), ("rule", "nope"), ("choice", [("lit", 1), ("lit", 2)]), ("range", ("lit", 1), ("lit", 2), True),
                    ("rule", "t")):
            for pos in (0, 1):
                for nm, kd in sym_kinds():
                    def ob(E, bad=bad, pos=pos, kd=kd, incl=incl):
                        k = ("lit", E.int_var(-(1 << 64), U64))
                        ab = (bad, k) if pos == 0 else (k, bad)
                        return dict(env={"t": ([], ("prel", "Tstr"))}, root=([], ("range", ab[0], ab[1], incl)), data=kd(E))
                    out.append(("schema range with endpoint %s = %s on %s" % (pos, bad, nm), ob))
    return out


# ------------------------------------------------------------------ C11
def targets():
    return [("prel", p) for p in PREL] + [("lit", 3), ("arr", []), ("map", []), ("rule", "nope"), ("rule", "ti"), ("rule", "tu2"), ("rule", "ts"),
                                          ("range", ("lit", 0), ("lit", 9), True), ("choice", [("prel", "Int"), ("prel", "Uint")]), ("grp", [("prel", "Int")])]


TENV = {"ti": ([], ("prel", "Int")), "tu": ([], ("prel", "Uint")), "tu2": ([], ("rule", "tu")), "ts": ([], ("prel", "Tstr")),
        "kn": ([], ("lit", -5)), "kt": ([], ("lit", "x"))}


def c11(t):
    out = []
    for op in ("lt", "le", "gt", "ge"):
        for tg in targets():
            for nm, kd in sym_kinds():
                def ob(E, op=op, tg=tg, kd=kd):
                    return dict(env=TENV, root=([], ("ctl", op, tg, ("lit", E.int_var(-(1 << 64), U64)))), data=kd(E))
                out.append(("schema %s .%s n on %s" % (tg, op, nm), ob))
        for tg in (("prel", "Int"), ("prel", "Uint"), ("prel", "Nint"), ("rule", "tu2")):
            for wn, ws, wd in wraps():
                def ob(E, op=op, tg=tg, ws=ws, wd=wd):
                    n = ("ctl", op, tg, ("lit", E.int_var(-(1 << 64), U64)))
                    return dict(env=dict(TENV, x=([], n)), root=([], ws(n)), data=wd(("int", E.int_var(-(1 << 64), U64))))
                out.append(("schema %s .%s n %s on int i" % (tg, op, wn), ob))
            for arg in (("rule", "kn"), ("rule", "kt"), ("rule", "nope"), ("rule", "ti"), ("lit", "x"), ("lit", True), ("prel", "Int"), ("rule", "r2"),
                        ("range", ("lit", 0), ("lit", 9), True), ("lit", FV(bits=0x3ff0000000000000))):
                for nm, kd in sym_kinds():
                    def ob(E, op=op, tg=tg, arg=arg, kd=kd):
                        return dict(env=dict(TENV, r2=([], ("rule", "kn"))), root=([], ("ctl", op, tg, arg)), data=kd(E))
                    out.append(("schema %s .%s %s on %s" % (tg, op, arg, nm), ob))

        def og(E, op=op):
            return dict(env={"g": (["T", "N"], ("ctl", op, ("rule", "T"), ("rule", "N")))},
                        root=([], ("rule", "g", ("prel", "Uint"), ("lit", E.int_var(-(1 << 64), U64)))), data=("int", E.int_var(-(1 << 64), U64)))
        out.append(("schema g<uint, n> with g<T,N> = T .%s N" % op, og))
    return out


# ------------------------------------------------------------------ C12
def c12(t):
    out = []
    lim = lambda E: E.int_var(-(1 << 64), 1 << 65)

    def sizes():
        yield "N", lambda E, env: ("lit", lim(E))
        yield "A..B", lambda E, env: ("range", ("lit", lim(E)), ("lit", lim(E)), True)
        yield "A...B", lambda E, env: ("range", ("lit", lim(E)), ("lit", lim(E)), False)
        yield "rule N", lambda E, env: (env.__setitem__("sz", ([], ("lit", lim(E)))), ("rule", "sz"))[1]
        yield "rule A..B", lambda E, env: (env.__setitem__("sz", ([], ("range", ("lit", lim(E)), ("lit", lim(E)), True))), ("rule", "sz"))[1]
        yield "text", lambda E, env: ("lit", "x")
        yield "int", lambda E, env: ("prel", "Int")
        yield "missing", lambda E, env: ("rule", "nope")
        yield "float", lambda E, env: ("lit", FV(bits=0x4000000000000000))
        yield "text range", lambda E, env: ("range", ("lit", "a"), ("lit", "b"), True)
        yield "mixed range", lambda E, env: ("range", ("lit", 1), ("lit", "b"), True)
    for sn, sf in sizes():
        for tg in targets():
            for nm, kd in sym_kinds():
                def ob(E, sf=sf, tg=tg, kd=kd):
                    env = dict(TENV)
                    return dict(env=env, root=([], ("ctl", "size", tg, sf(E, env))), data=kd(E))
                out.append(("schema %s .size %s on %s" % (tg, sn, nm), ob))
        if sn in ("N", "A..B", "A...B"):
            for p, d in (("Uint", lambda E: ("int", E.int_var(-(1 << 64), U64))), ("Tstr", lambda E: ("t", SymStr("s"))), ("Bstr", lambda E: ("bytes", SymBytes("b")))):
                for wn, ws, wd in wraps()[1:]:
                    def ob(E, sf=sf, p=p, d=d, ws=ws, wd=wd):
                        env = {}
                        n = ("ctl", "size", ("prel", p), sf(E, env))
                        env["x"] = ([], n)
                        return dict(env=env, root=([], ws(n)), data=wd(d(E)))
                    out.append(("schema %s .size %s %s" % (p, sn, wn), ob))

    def og(E):
        return dict(env={"g": (["T", "N"], ("ctl", "size", ("rule", "T"), ("rule", "N")))},
                    root=([], ("rule", "g", ("prel", "Tstr"), ("lit", lim(E)))), data=("t", SymStr("s")))
    out.append(("schema g<tstr, n> with g<T,N> = T .size N", og))
    return out


# ------------------------------------------------------------------ C13
def c13(t):
    out = []
    for nm, kd in sym_kinds():
        for wn, ws, wd in wraps():
            def ob(E, kd=kd, ws=ws, wd=wd):
                n = ("re", 0)
                return dict(env={"x": ([], n)}, root=([], ws(n)), data=wd(kd(E)))
            out.append(("schema tstr .regexp P %s on %s" % (wn, nm), ob))
    def ob2(E):
        return dict(env={}, root=([], ("arr", [("re", 0), ("re", 1), ("re", 0)])), data=("arr", [("t", 0), ("t", 1), ("t", 2)]))
    out.append(("schema [P0, P1, P0] on three texts", ob2))
    return out


# ------------------------------------------------------------------ C14
def c14(t):
    out = []
    def emb(tm, n="emb"):
        return ("bytes", SymBytes(n, {"tmpl": tm}))
    C = lambda x: ("ctl", "cbor", ("prel", "Bstr"), x)
    inners = [("re", 0), ("prel", "Any"), ("arr", [("re", 0), ("occ", ("*",), ("re", 1))]), ("map", [("kv", ("lit", key(0)), ("re", 0), True)]),
              ("choice", [("re", 0), ("prel", "Bstr")]), ("rule", "nope"), ("rule", "r"), ("grp", [("re", 0)]), C(("re", 0)), ("lit", 5),
              ("ctl", "size", ("prel", "Bstr"), ("lit", 4))]
    datas = [("t", 0), ("null",), ("int", 5), ("arr", []), ("arr", texts(2)), mdata(1), ("tag", ("t", 0)), ("arr", [("tag", ("t", 0))]),
             ("map", [(("t", 0), ("tag", ("t", 1)))]), emb(("t", 1), "inner")]
    for x in inners:
        for d in datas:
            env = {"r": ([], ("re", 3))}
            b = emb(d)
            for wn, ws, wd in wraps():
                if wn == "through a rule":
                    continue
                out.append(dict(env=env, root=([], ws(C(x))), data=wd(b)))
            out.append(dict(env=env, root=([], ("choice", [C(x), ("prel", "Bstr")])), data=b))
            out.append(dict(env=env, root=([], ("arr", [("occ", ("?",), C(x)), ("prel", "Any")])), data=("arr", [b])))
            out.append(dict(env=env, root=([], ("arr", [("occ", ("*",), C(x))])), data=("arr", [b, emb(("t", 1), "emb2")])))
            out.append(dict(env=env, root=([], ("map", [("occ", ("?",), ("kv", ("lit", key(0)), C(x), True)), ("occ", ("*",), ("kv", ("prel", "Any"), ("prel", "Any"), False))])),
                            data=("map", [(("t", 0), b)])))
    res = [(name_of(o) + " #%d" % i, o) for i, o in enumerate(out)]
    for nm, kd in sym_kinds():
        if nm == "bytes b":
            continue
        def ob(E, kd=kd):
            return dict(env={}, root=([], C(("re", 0))), data=kd(E))
        res.append(("schema bstr .cbor T0 on %s" % nm, ob))
    return res


# ------------------------------------------------------------------ C15
def c15(t):
    out = []
    re = lambda i: ("re", i)
    A, B, X = ("rule", "A"), ("rule", "B"), ("rule", "x")

    def bodies():
        for p in (A, B, X, re(0)):
            yield p
        for p, q in itertools.product((A, B, X), repeat=2):
            yield ("choice", [p, q])
            yield ("arr", [p, q])
            yield ("map", [("kv", p, q, True)])
            yield ("rule", "h", p, q)
            yield ("arr", [("occ", ("?",), p), ("occ", ("*",), q)])
            yield ("arr", [("grp", [p]), q])
            yield ("rule", "h", ("rule", "h", p, q), q)
            yield ("rule", "h", ("choice", [p, q]), p)
        for p in (A, B):
            yield ("arr", [("unwrap", p[1])])
            yield ("cfy", p[1])
            yield ("cfyi", [p, X])
            yield ("range", p, ("lit", 9), True)
            yield ("ctl", "lt", ("prel", "Int"), p)
            yield ("ctl", "cbor", ("prel", "Bstr"), p)
            yield ("arr", [("rule", "h", p, ("arr", [p]))])
            yield ("arr", [("kv", ("lit", "k"), p, True), ("rule", "i")])

    hs = [A, ("arr", [A, B]), ("choice", [B, A]), ("rule", "k", B, A), ("arr", [("rule", "i"), A]), ("arr", [("rule", "k", ("arr", [B]), A)])]
    argl = [(re(1), re(2)), (("arr", [re(1)]), re(2)), (X, ("rule", "A")), (("rule", "B"), X), (("rule", "k", X, re(2)), re(3)),
            (("lit", 4), ("prel", "Int")), (("rule", "g1"), ("rule", "ar"))]
    datas = [("t", 0), ("arr", texts(1)), ("arr", texts(2)), ("int", 4), ("arr", [("arr", texts(1)), ("t", 2)]), mdata(1)]
    # rules named like the parameters exist too: parameters must shadow them, only in their own body
    base = {"x": ([], re(5)), "i": ([], A), "A": ([], re(6)), "B": ([], re(7)), "k": (["B", "A"], ("choice", [A, ("arr", [B])])),
            "g1": ([], ("grp", [re(8)])), "ar": ([], ("arr", [re(9)]))}
    for body in bodies():
        for h in (hs if uses(body, "h") else hs[:1]):
            for args in argl:
                for d in datas:
                    env = dict(base)
                    env["h"] = (["A", "B"], h)
                    env["g"] = (["A", "B"], body)
                    out.append(dict(env=env, root=([], ("rule", "g") + args), data=d))
                    if d[0] == "arr":
                        out.append(dict(env=env, root=([], ("arr", [("rule", "g") + args, ("occ", ("?",), A)])), data=d))
    out = sample(out, tier(t, 6000, 60000), 15)
    out += unwraps(t)
    # arity
    for n in range(0, 4):
        for m in range(0, 4):
            env = {"g": (["P%d" % i for i in range(n)], re(0)), "ar": (["P%d" % i for i in range(n)], ("arr", [re(0)])),
                   "mp": (["P%d" % i for i in range(n)], ("map", [("kv", re(0), re(1), False)])), "gr": (["P%d" % i for i in range(n)], ("grp", [re(0)]))}
            a = tuple(re(10 + i) for i in range(m))
            for root, d in ((("rule", "g") + a, ("t", 0)), (("choice", [re(5), ("rule", "g") + a]), ("t", 0)), (("arr", [("rule", "g") + a]), ("arr", texts(1))),
                            (("arr", [("unwrap", "ar") + a]), ("arr", texts(1))), (("map", [("unwrap", "mp") + a]), mdata(1)), (("cfy", "gr") + a, ("t", 0)),
                            (("map", [("kv", ("rule", "g") + a, re(6), True)]), mdata(1)), (("range", ("rule", "g") + a, ("lit", 3), True), ("int", 4)),
                            (("arr", [("cfy", "gr") + a]), ("arr", texts(1))), (("map", [("cfy", "gr") + a]), mdata(1)), (("ctl", "size", ("rule", "g") + a, ("lit", 3)), ("t", 0))):
                out.append(dict(env=env, root=([], root), data=d))
    # validating against a rule with parameters
    for n in range(0, 3):
        for nd, d in ((re(0), ("t", 0)), (("rule", "P0"), ("t", 0)), (("arr", [re(0)]), ("arr", texts(1)))):
            out.append(dict(env={}, root=(["P%d" % i for i in range(n)], nd), data=d))
    # rule chains
    for n in (1, 2, 5, 12):
        env = {"c%d" % i: ([], ("rule", "c%d" % (i + 1))) for i in range(n)}
        env["c%d" % n] = ([], re(0))
        out.append(dict(env=env, root=([], ("rule", "c0")), data=("t", 0)))
        out.append(dict(env=env, root=([], ("arr", [("rule", "c0")])), data=("arr", texts(1))))
        genv = {"c%d" % i: (["T"], ("rule", "c%d" % (i + 1), ("rule", "T"))) for i in range(n)}
        genv["c%d" % n] = (["T"], ("rule", "T"))
        if n <= 5:
            out.append(dict(env=genv, root=([], ("rule", "c0", re(0))), data=("t", 0)))
    return named(out)


def uses(b, n):
    if isinstance(b, (tuple, list)):
        return (len(b) > 1 and b[0] == "rule" and b[1] == n) or any(uses(x, n) for x in b)
    return False


# ------------------------------------------------------------------ C16
def c16(t):
    out = []
    re = lambda i: ("re", i)
    R = lambda n, *a: ("rule", n) + a
    T, D = ("t", 0), ("arr", texts(1))

    def add(env, root, *ds):
        for d in ds:
            out.append(dict(env={k: (v if isinstance(v, tuple) and isinstance(v[0], list) else ([], v)) for k, v in env.items()}, root=([], root), data=d))
    # cycles through every position that does not consume data
    for k in range(1, 4):
        names = ["a%d" % i for i in range(k)]
        def cyc(f):
            return {names[i]: f(names[(i + 1) % k]) for i in range(k)}
        add(cyc(lambda n: R(n)), R("a0"), T, D, mdata(1))
        add(cyc(lambda n: ("choice", [re(0), R(n)])), R("a0"), T)
        add(cyc(lambda n: ("choice", [R(n), re(0)])), R("a0"), T)
        add(cyc(lambda n: ("grp", [R(n)])), R("a0"), T)
        add(cyc(lambda n: ("grp", [R(n), re(0)])), ("arr", [R("a0")]), ("arr", []), D)
        add(cyc(lambda n: ("grp", [("occ", ("?",), R(n)), re(0)])), ("arr", [R("a0")]), ("arr", []), D)
        add(cyc(lambda n: ("grp", [("occ", ("*",), R(n))])), ("arr", [R("a0")]), ("arr", []), D)
        add(cyc(lambda n: ("grp", [("occ", ("*",), R(n))])), ("map", [R("a0")]), ("map", []), mdata(1))
        add(cyc(lambda n: ("grp", [R(n)])), ("map", [R("a0")]), ("map", []), mdata(1))
        add(cyc(lambda n: ("arr", [("unwrap", n)])), ("arr", [("unwrap", "a0")]), ("arr", []), D)
        add(cyc(lambda n: ("arr", [("occ", ("?",), ("unwrap", n)), re(0)])), R("a0"), ("arr", []), D)
        add(cyc(lambda n: ("map", [("unwrap", n)])), ("map", [("unwrap", "a0")]), ("map", []), mdata(1))
        add(cyc(lambda n: ("map", [("occ", ("?",), ("unwrap", n))])), R("a0"), ("map", []), mdata(1))
        add(cyc(lambda n: ("grp", [R(n)])), ("cfy", "a0"), T)
        add(cyc(lambda n: R(n)), ("cfy", "a0"), T)
        add(cyc(lambda n: ("grp", [("kv", ("lit", "k"), ("cfy", n), True)])), ("cfy", "a0"), T)
        add(cyc(lambda n: ("grp", [R(n)])), ("map", [("cfy", "a0")]), mdata(1))
        add(cyc(lambda n: R(n)), ("map", [("cfy", "a0")]), mdata(1))
        add(cyc(lambda n: ("cfyi", [re(0), R(n)])), R("a0"), T)
        add(cyc(lambda n: R(n)), ("range", R("a0"), ("lit", 4), True), ("int", 3), T)
        add(cyc(lambda n: R(n)), ("range", ("lit", 4), R("a0"), True), ("int", 3), T)
        for op in ("size", "lt", "le", "gt", "ge"):
            add(cyc(lambda n: R(n)), ("ctl", op, R("a0"), ("lit", 4)), ("int", 3), T)
            add(cyc(lambda n: R(n)), ("ctl", op, ("prel", "Uint"), R("a0")), ("int", 3), T)
        add(cyc(lambda n: R(n)), ("map", [("kv", R("a0"), re(0), True)]), mdata(1))
        add(cyc(lambda n: R(n)), ("map", [("kv", re(0), R("a0"), True)]), mdata(1))
        add(cyc(lambda n: R(n)), ("map", [("occ", ("?",), ("kv", R("a0"), re(0), True))]), mdata(1))
        # through generic parameters
        add(dict(cyc(lambda n: R("w", R(n))), w=(["T"], R("T"))), R("a0"), T)
        add(dict(cyc(lambda n: R("w", R(n))), w=(["T"], ("choice", [re(0), R("T")]))), R("a0"), T)
        add(dict(cyc(lambda n: R("w", R(n))), w=(["T"], ("grp", [R("T")]))), ("arr", [R("a0")]), ("arr", []), D)
        add(dict(cyc(lambda n: R("w", R("w", R(n)))), w=(["T"], R("T"))), R("a0"), T)
    add({"a": (["T"], R("a", R("T")))}, R("a", re(0)), T)
    add({"a": (["T"], R("a", ("arr", [R("T")])))}, R("a", re(0)), T)
    add({"a": (["T"], ("choice", [R("T"), R("a", R("T"))]))}, R("a", re(0)), T)
    add({"a": (["T"], R("b", R("T"))), "b": (["T"], R("a", R("T")))}, R("a", re(0)), T)
    add({"a": (["T"], R("T"))}, R("a", R("a", R("a", re(0)))), T)
    # exponential chains of parameters: 2^n steps without consuming data
    for n in (9, 10):
        env = {"p0": (["T"], R("T"))}
        for i in range(1, n + 1):
            env["p%d" % i] = (["T"], R("p%d" % (i - 1), R("p%d" % (i - 1), R("T"))))
        add(env, R("p%d" % n, re(0)), T)
        env2 = dict(env, p0=(["T"], ("grp", [R("T")])))
        add(env2, ("arr", [R("p%d" % n, re(0))]), D)
        env3 = dict(env, p0=(["T"], ("choice", [re(1), R("T")])))
        add(env3, R("p%d" % n, re(0)), T)
    # recursion that consumes data is fine
    add({"l": ("arr", [("occ", ("?",), R("l")), ("occ", ("*",), re(0))])}, R("l"), ("arr", []), D, ("arr", [("arr", [("arr", [])])]), ("arr", [("arr", [("arr", texts(1))]), ("t", 1)]))
    add({"m": ("map", [("occ", ("*",), ("kv", re(0), ("choice", [re(1), R("m")]), False))])}, R("m"), ("map", []), mdata(1), ("map", [(("t", 0), mdata(1))]))
    add({"l": (["T"], ("arr", [("occ", ("?",), R("l", R("T"))), ("occ", ("*",), R("T"))]))}, R("l", re(0)), ("arr", []), D, ("arr", [("arr", [("arr", [])])]))
    return named(out)


def unwraps(t):
    """unwrapped and choiceified generic rules whose body uses its parameters, called with types, rules and parameters of the caller"""
    out = []
    re = lambda i: ("re", i)
    A, B = ("rule", "A"), ("rule", "B")
    abod = [[A], [A, B], [B, A], [("occ", ("?",), A), B], [("occ", ("*",), A)], [("grp", [A, B])], [("choice", [A, B])], [("choice", [("grp", [A, B]), ("grp", [B])])],
            [("kv", ("lit", "k"), A, True)], [("unwrap", "in", B), A], [("arr", [A])], [("rule", "gr", A)], [("occ", ("n", 1, 2), ("unwrap", "in", A))]]
    kv = lambda k, v, c=False: ("kv", k, v, c)
    k0, k1 = ("lit", key(0)), ("lit", key(1))
    mbod = [[kv(k0, A)], [kv(A, B)], [kv(k0, B, True), kv(k1, A)], [("occ", ("?",), kv(k0, A)), kv(re(60), B)], [("occ", ("*",), kv(A, B))], [("grp", [kv(k0, A), kv(k1, B)])],
            [("unwrap", "in", B)], [("rule", "gr", A)], [("occ", ("*",), kv(re(60), A)), ("unwrap", "in", B)]]
    argl = [(re(1), re(2)), (("choice", [re(1), re(3)]), re(2)), (("rule", "x"), re(2)), (re(1), ("rule", "id", re(4))), (("arr", [re(1)]), re(2)), (("rule", "A"), ("rule", "B"))]
    base = {"x": ([], re(5)), "id": (["T"], ("rule", "T")), "A": ([], re(6)), "B": ([], re(7))}

    def put(env, root, d):
        out.append(dict(env=dict(base, **env), root=([], root), data=d))
    for args in argl:
        for b in abod:
            env = {"u": (["A", "B"], ("arr", b)), "in": (["A"], ("arr", [A])), "gr": (["B"], ("grp", [B, ("occ", ("?",), A)]))}
            for n in (1, 2, 3):
                d = ("arr", texts(n))
                U = ("unwrap", "u") + args
                put(env, ("arr", [U, ("occ", ("?",), re(9))]), d)
                put(env, ("arr", [("occ", ("*",), U)]), d)
                put(env, ("arr", [("choice", [("grp", [U, re(8)]), ("grp", [U])])]), d)
                # through a caller with the same parameter names, in another order
                env2 = dict(env, w=(["B", "A"], ("arr", [("unwrap", "u", A, B)])), w2=(["A"], ("arr", [("unwrap", "u", ("rule", "id", A), re(3)), ("occ", ("?",), A)])),
                            w3=(["P", "Q"], ("arr", [("unwrap", "u", ("rule", "P"), ("rule", "Q"))])))
                put(env2, ("rule", "w") + args, d)
                put(env2, ("rule", "w2", args[0]), d)
                put(env2, ("rule", "w3") + args, d)
                put(env2, ("arr", [("unwrap", "w") + args, ("occ", ("?",), re(9))]), d)
        for b in mbod:
            env = {"u": (["A", "B"], ("map", b)), "in": (["A"], ("map", [kv(k1, A)])), "gr": (["B"], ("grp", [kv(k0, B)]))}
            for n in (1, 2):
                d = mdata(n)
                U = ("unwrap", "u") + args
                rest = ("occ", ("*",), kv(re(9), re(10)))
                put(env, ("map", [U, rest]), d)
                put(env, ("map", [("occ", ("?",), U), rest]), d)
                put(env, ("map", [("grp", [("occ", ("?",), kv(k0, re(8))), U]), rest]), d)
                env2 = dict(env, w=(["B", "A"], ("map", [("unwrap", "u", A, B)])), w3=(["P", "Q"], ("map", [("unwrap", "u", ("rule", "P"), ("rule", "Q")), rest])))
                put(env2, ("rule", "w") + args, d)
                put(env2, ("rule", "w3") + args, d)
        for b in [[A], [A, B], [kv(k0, A), kv(k1, B)], [("rule", "gr", A), B], [kv(k0, ("rule", "id", B))], [("grp", [A])]]:
            env = {"u": (["A", "B"], ("grp", b)), "gr": (["B"], ("grp", [B, A])), "w": (["B", "A"], ("cfy", "u", A, B))}
            for d in (("t", 0), ("arr", texts(1))):
                put(env, ("cfy", "u") + args, d)
                put(env, ("rule", "w") + args, d)
                put(env, ("arr", [("occ", ("*",), ("cfy", "u") + args)]), ("arr", [d]))
        for b in [[("grp", [kv(k0, A)])], [kv(re(70), ("grp", [kv(k1, B)])), kv(re(71), ("grp", [kv(k0, A)]))], [("rule", "gr", A)]]:
            env = {"u": (["A", "B"], ("grp", b)), "gr": (["B"], ("grp", [kv(re(72), ("grp", [kv(k0, B)]))])), "w": (["B", "A"], ("map", [("cfy", "u", A, B)]))}
            for n in (1, 2):
                put(env, ("map", [("cfy", "u") + args, ("occ", ("*",), kv(re(9), re(10)))]), mdata(n))
                put(env, ("rule", "w") + args, mdata(n))
    return out


# ------------------------------------------------------------------ C17
def c17(t):
    out = arrays({"unwrap", "occ", "gchoice", "tchoice", "gref"}, ("unwrap",), 4, [(5, tier(t, 1500, 9000))], (0, 1, 2, 3), seed=17, occs=[("?",), ("*",), ("n", 1, 2)])
    out += maps({"unwrap", "occ", "gchoice"}, ("unwrap",), 2, [(3, tier(t, 900, 6000)), (4, tier(t, 300, 4000))], (0, 1, 2), seed=17, occs=[("?",), ("*",)], leaf=KVS)
    re = lambda i: ("re", i)
    tgts = [re(0), ("prel", "Any"), ("lit", 1), ("arr", [re(0)]), ("map", [("kv", ("lit", key(0)), re(0), True)]), ("grp", [re(0)]),
            ("grp", [re(0), re(1)]), ("rule", "ar"), ("rule", "mp"), ("choice", [("arr", [re(0)]), re(1)]), ("cfyi", [re(0), re(1)]), ("rule", "nope"),
            ("arr", []), ("map", [])]
    env0 = {"ar": ([], ("arr", [re(5)])), "mp": ([], ("map", [("kv", ("lit", key(0)), re(5), False)]))}
    for tg in tgts:
        env = dict(env0, u=([], tg))
        for d in (0, 1, 2):
            for m in (("unwrap", "u"), ("occ", ("?",), ("unwrap", "u")), ("occ", ("*",), ("unwrap", "u")), ("choice", [("unwrap", "u"), re(8)]),
                      ("grp", [("unwrap", "u"), re(8)]), ("kv", ("lit", "k"), ("unwrap", "u"), True)):
                out.append(dict(env=env, root=([], ("arr", [m, ("occ", ("?",), re(9))])), data=("arr", texts(d))))
                if m[0] != "kv" and not (m[0] in ("choice", "grp")):
                    out.append(dict(env=env, root=([], ("map", [m, ("occ", ("*",), ("kv", re(9), re(10), False))])), data=mdata(d)))
        for root in (("unwrap", "u"), ("choice", [re(7), ("unwrap", "u")]), ("map", [("kv", re(7), ("unwrap", "u"), True)]), ("map", [("kv", ("unwrap", "u"), re(7), True)])):
            for d in (("t", 0), ("arr", texts(1)), mdata(1)):
                out.append(dict(env=env, root=([], root), data=d))
    out += unwraps(t)
    # groups used as types
    mem = [re(0), ("kv", ("lit", "k"), re(0), True), ("occ", ("?",), re(0)), ("occ", ("*",), re(0)), ("unwrap", "ar"), ("grp", [re(1)]), ("grp", [re(1), re(2)]),
           ("arr", [re(3)]), ("choice", [("grp", [re(1)]), ("grp", [re(2), re(3)])]), ("rule", "ar"), ("rule", "gg"), ("grp", [])]
    env = dict(env0, gg=([], ("grp", [re(6)])))
    for n in (0, 1, 2):
        for ms in itertools.product(mem, repeat=n):
            e = dict(env, g=([], ("grp", list(ms))))
            for d in (("t", 0), ("arr", texts(1))):
                for root in (("rule", "g"), ("grp", list(ms)), ("choice", [("rule", "g"), ("prel", "Any")]), ("map", [("kv", ("prel", "Any"), ("rule", "g"), False)])):
                    dd = ("map", [(("t", 0), d)]) if root[0] == "map" else d
                    if n == 2 and root[0] == "grp":
                        continue
                    out.append(dict(env=e, root=([], root), data=dd))
            out.append(dict(env=e, root=([], ("arr", [("kv", ("lit", "k"), ("rule", "g"), True)])), data=("arr", texts(1))))
    return named(out)


FAM = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13, C14=c14,
           C15=c15, C16=c16, C17=c17)


def varied(f, seed):
    from . import vary

    def g(t):
        base = f(t)
        return base + vary.vary(base, seed, tier(t, 3000, 40000)) + vary.longer(base, seed + 1, tier(t, 1500, 20000))
    return g


for _i, _k in enumerate(("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C15", "C16", "C17")):
    FAM[_k] = varied(FAM[_k], 100 + 2 * _i)


def keep(prop):
    if prop == "C01":
        return lambda b: b["code"][0] not in ("panic", "diverge") and "fatal" in (b["code"][0], b["spec"][0])
    if prop == "C18":
        return lambda b: b["code"][0] == "panic"
    return lambda b: b["code"][0] not in ("panic",)
