"""Flattening (C19-C21): every syntax-tree construct in every position.

The syntax tree handed to the public `flatten` is a template; the validation
tree it returns is compared, node by node, with the reference flattening
below.  Names may be symbolic: one abstract trace then stands for every name
of a partition the code itself makes.
"""
import itertools

from absint import core
from absint.core import (Agg, BoxV, RcV, Ref, StringV, SymStr, SymBytes, VecV, MapV, SI, FV, Obj, Panic, Diverge, Undecided, explore, replay)
from absint.build import Builder
from absint.vrun import site, describe

F1 = FV(bits=0x3ff8000000000000)
PRELUDE = {"any": "Any", "nil": "Nil", "null": "Nil", "bool": "Bool", "int": "Int", "uint": "Uint", "nint": "Nint", "float": "Float",
           "tstr": "Tstr", "text": "Tstr", "bstr": "Bstr", "bytes": "Bstr"}
PRELUDE.update({n: "Float" for n in ("float16", "float32", "float64", "float16-32", "float32-64")})
PRELUDE.update({n: "Tstr" for n in ("tdate", "uri", "b64url", "b64legacy", "regexp", "mime-message")})
PRELUDE.update({n: "Bstr" for n in ("biguint", "bignint", "encoded-cbor")})
PRELUDE.update({n: "Any" for n in ("eb64url", "eb64legacy", "eb16", "cbor-any")})
UNSUP = ("time", "bigint", "integer", "unsigned", "number", "decfrac", "bigfloat", "undefined")
NAMES = list(PRELUDE) + ["true", "false"] + list(UNSUP)


# ----------------------------------------------------------- AST templates
class Ast(Builder):
    """template -> abstract ast value

    value  ("vt",s) ("vu",n) ("vn",n) ("vf",f) ("vb",bytes)
    t2     ("v",value) ("n",name,[t1]) ("par",type) ("map",g) ("arr",g) ("unw",name,[t1]) ("cfi",g) ("cf",name,[t1])
    t1     ("s",t2) ("rng",t2,t2,incl) ("ctl",op,t2,t2)
    type   [t1..]      group [[ent..]..]
    ent    (occ|None, ("mem", key|None, type) | ("gn",name) | ("pg",group))
    key    (("t1",t1)|("bw",s)|("v",value), cut)
    rule   (name, [parm], ("t",type)|("g",ent))
    """

    def T(self, n):
        return self.p.adt("ast::" + n)

    def aval(self, v):
        return self.en(self.T("Value"), {"vt": "Text", "vu": "Uint", "vn": "Nint", "vf": "Float", "vb": "Bytes"}[v[0]], v[1])

    def ng(self, x):
        return self.st("ast::NameGeneric", name=x[1], generic_args=[self.t1(a) for a in x[2]])

    def t2(self, x):
        k, T = x[0], self.T("Type2")
        if k == "v":
            return self.en(T, "Value", self.aval(x[1]))
        if k in ("n", "unw", "cf"):
            return self.en(T, {"n": "Typename", "unw": "Unwrap", "cf": "Choiceify"}[k], self.ng(x))
        if k == "par":
            return self.en(T, "Parethesized", self.ty(x[1]))
        return self.en(T, {"map": "Map", "arr": "Array", "cfi": "ChoiceifyInline"}[k], self.group(x[1]))

    def t1(self, x):
        T = self.T("Type1")
        if x[0] == "s":
            return self.en(T, "Simple", self.t2(x[1]))
        if x[0] == "rng":
            return self.en(T, "Range", self.st("ast::TypeRange", start=self.t2(x[1]), end=self.t2(x[2]), inclusive=x[3]))
        return self.en(T, "Control", self.st("ast::TypeControl", target=self.t2(x[2]), arg=self.t2(x[3]), op=x[1]))

    def ty(self, x):
        return Agg(self.T("Type"), 0, [VecV([self.t1(y) for y in x])])

    def group(self, g):
        return Agg(self.T("Group"), 0, [VecV([Agg(self.T("GrpChoice"), 0, [VecV([self.ent(e) for e in c])]) for c in g])])

    def ent(self, e):
        V = self.T("GrpEntVal")
        k = e[1][0]
        if k == "mem":
            key = e[1][1]
            kk = None
            if key is not None:
                K = self.T("MemberKeyVal")
                a = key[0]
                kv = {"t1": lambda: self.en(K, "Type1", self.t1(a[1])), "bw": lambda: self.en(K, "Bareword", a[1]),
                      "v": lambda: self.en(K, "Value", self.aval(a[1]))}[a[0]]()
                kk = self.st("ast::MemberKey", val=kv, cut=key[1])
            v = self.en(V, "Member", self.st("ast::Member", key=kk, value=self.ty(e[1][2])))
        elif k == "gn":
            v = self.en(V, "Groupname", e[1][1])
        else:
            v = self.en(V, "Parenthesized", self.group(e[1][1]))
        return self.st("ast::GrpEnt", occur=None if e[0] is None else self.occ(e[0]), val=v)

    def rule(self, r):
        R = self.T("RuleVal")
        v = self.en(R, "AssignType", self.ty(r[2][1])) if r[2][0] == "t" else self.en(R, "AssignGroup", self.ent(r[2][1]))
        return self.st("ast::Rule", name=r[0], generic_parms=list(r[1]), val=v)

    def cddl(self, rules):
        return self.st("ast::Cddl", rules=[self.rule(r) for r in rules])

    def cddl_slice(self, rules):
        return self.st("ast::CddlSlice", rules=[Agg(None, 0, [self.rule(r), StringV(SymStr("text%d" % i))]) for i, r in enumerate(rules)])


# ----------------------------------------------------- reference flattening
class Refuse(Exception):
    """conversion must fail; .cls: set of acceptable error classes"""


class Flat:
    """template of the AST -> template of the IVT (absint.build syntax).
    Every part is visited so that all acceptable refusals are collected."""

    def __init__(self, E):
        self.E = E
        self.err = []
        self.builds = []

    def bad(self, cls):
        self.err.append(cls)
        return ("bad",)

    def name(self, n):
        E = self.E
        for k in NAMES:
            if n == k if isinstance(n, str) else E.streq(n, k):
                if k in PRELUDE:
                    return ("prel", PRELUDE[k])
                if k in UNSUP:
                    return self.bad("Unsupported")
                return ("lit", k == "true")
        return ("rule", n)

    def ngen(self, x, only_rule=False):
        n0 = len(self.err)
        r = self.name(x[1])
        args = [self.t1(a) for a in x[2]]
        if only_rule and len(self.err) > n0:
            self.err.append("GenericError")     # may stand for any problem under ~ or &
        if r[0] == "rule":
            return r + tuple(args)
        if r[0] == "bad":
            if only_rule:
                self.err.append("GenericError")
            elif args:
                self.err.append("GenericError")
            return r
        # arguments of a built-in are an error whatever they are
        if x[2] or only_rule:
            return self.bad("GenericError")
        return r

    def value(self, v):
        return ("lit", v[1])

    def t2(self, x):
        k = x[0]
        if k == "v":
            return self.value(x[1])
        if k == "n":
            return self.ngen(x)
        if k == "par":
            return self.ty(x[1])
        if k in ("unw", "cf"):
            r = self.ngen(x, True)
            return r if r[0] == "bad" else ({"unw": "unwrap", "cf": "cfy"}[k],) + r[1:]
        return ({"map": "map", "arr": "arr", "cfi": "cfyi"}[k], self.group(x[1]))

    def t1(self, x):
        if x[0] == "s":
            return self.t2(x[1])
        if x[0] == "rng":
            e = []
            for p in x[1:3]:
                r = self.t2(p) if p[0] in ("v", "n") else self.bad("Structural")
                if r[0] not in ("rule", "lit", "bad"):
                    r = self.bad("Structural")
                e.append(r)
            return ("range", e[0], e[1], x[3])
        op = x[1]
        E = self.E
        n0 = len(self.err)
        for o in ("size", "lt", "le", "gt", "ge", "regexp", "cbor"):
            if op == o if isinstance(op, str) else E.streq(op, o):
                break
        else:
            self.err.append("Unsupported")
            # operands may also be broken
            self.t2(x[2]), self.t2(x[3])
            return ("bad",)
        t, a = self.t2(x[2]), self.t2(x[3])
        if o == "regexp":
            if t[0] == "bad" or a[0] == "bad":
                # the other operand's problem may be reported instead
                self.err.append("Structural")
                return ("bad",)
            if t != ("prel", "Tstr") or a[0] != "lit" or not isinstance(a[1], (str, SymStr)):
                return self.bad("Structural")
            p = a[1]
            self.builds.append(p)
            if E.fact(("rebuild", p if isinstance(p, str) else E.rep(p))) != 0:
                return self.bad("Structural")
            return ("rex", p)
        if o == "cbor":
            if t != ("prel", "Bstr"):
                self.err.append("Structural")
                return ("bad",)
            return ("ctl", "cbor", t, a)
        ok = a[0] == "rule" or a[0] == "bad" or a[0] == "lit" and not isinstance(a[1], bool) and isinstance(a[1], (int, SI)) or \
            o == "size" and a[0] == "range"
        if not ok:
            return self.bad("Unsupported")
        return ("ctl", o, t, a)

    def ty(self, l):
        if not l:
            return self.bad("Unsupported")
        o = [self.t1(x) for x in l]
        return o[0] if len(o) == 1 else ("choice", o)

    def group(self, g):
        cs = [[self.ent(e) for e in c] for c in g]
        if len(cs) == 1:
            return cs[0]
        return [("choice", [("grp", c) for c in cs])]

    def ent(self, e):
        v = e[1]
        if v[0] == "mem":
            val = self.ty(v[2])
            if v[1] is None:
                n = val
            else:
                k, cut = v[1]
                kk = self.t1(k[1]) if k[0] == "t1" else ("lit", k[1]) if k[0] == "bw" else self.value(k[1])
                n = ("kv", kk, val, cut)
        elif v[0] == "gn":
            n = self.name(v[1])
        else:
            n = ("grp", self.group(v[1]))
        return ("occ", e[0], n) if e[0] is not None else n

    def rules(self, rs):
        return [(r[0], list(r[1]), self.ty(r[2][1]) if r[2][0] == "t" else self.ent(r[2][1])) for r in rs]


class IvtB(Builder):
    def n(self, t):
        if t[0] == "rex":
            return self.en(self.node, "Control", self.en(self.ctl, "Regexp", self.st("ivt::CtlOpRegexp", re=Obj("regex", pat=t[1], opts=None))))
        return Builder.n(self, t)


def unwrapv(x):
    while type(x) in (BoxV, RcV):
        x = x.f[0]
    if type(x) is Ref:
        return unwrapv(x.b[x.k])
    return x


def same(E, a, b):
    """exact structural identity of two abstract trees"""
    a, b = unwrapv(a), unwrapv(b)
    if type(a) is StringV:
        a = a.v
    if type(b) is StringV:
        b = b.v
    ta, tb = type(a), type(b)
    if ta in (str, SymStr) and tb in (str, SymStr):
        return E.streq(a, b)
    if ta is bool or tb is bool:
        return ta is tb and a == b
    if ta in (int, SI) and tb in (int, SI):
        return E.ieq(a, b)
    if ta is FV and tb is FV:
        return a.bits == b.bits and (a.bits is not None or a.id == b.id)
    if ta is Obj and tb is Obj:
        if a.kind == b.kind == "regex":
            return same(E, a.d["pat"], b.d["pat"])
        raise Undecided("compare objects")
    if ta is Agg and tb is Agg:
        E.force(a)
        E.force(b)
        return a.var == b.var and len(a.f) == len(b.f) and all(same(E, x, y) for x, y in zip(a.f, b.f))
    if ta is VecV and tb is VecV:
        a, b = a.l, b.l
        ta, tb = type(a), type(b)
    if ta is SymBytes or tb is SymBytes:
        if ta is list and not a or tb is list and not b:
            raise Undecided("bytes")
        if ta is list:
            a = E.tobytes(a)
        if tb is list:
            b = E.tobytes(b)
        return E.streq(a, b)
    if ta is list and tb is list:
        return len(a) == len(b) and all(same(E, x, y) for x, y in zip(a, b))
    raise Undecided("compare %s with %s" % (ta.__name__, tb.__name__))


SAFE_OPTS = ("size_limit", "dfa_size_limit", "nest_limit")


def bad_regex_opts(E, notes):
    """first compiled pattern whose options change meaning or lift the memory limit"""
    for n in notes:
        if n[0] != "regex-build":
            continue
        o = dict(n[2])
        lim = o.get("size_limit")
        if not isinstance(lim, int) or lim > 1 << 20:
            return "pattern compiled without the 1 MiB memory limit (%s)" % (n[2],)
        for k, v in n[2]:
            if k in SAFE_OPTS:
                continue
            if k == "unicode" and v is True or k not in ("unicode",) and v is False:
                continue
            return "pattern compiled with option %s=%s" % (k, v)
    return None


def check(P, rules, slice_=False, fuel=200000, max_paths=4000, deadline=None):
    A, B = Ast(P), IvtB(P)
    fn = P.byname.get("cddl_cat::flatten::slice_flatten" if slice_ else "cddl_cat::flatten::flatten")
    if fn is None or not fn.has:
        raise KeyError("flatten entry point")
    VE = P.adt("util::ValidateError")
    st = dict(paths=0, decided=0, undecided=0, infeasible=0, imprecise=0, budget=0)
    bad, und, touched = [], {}, set()

    def body(E):
        o = rules(E) if callable(rules) else rules
        arg = A.cddl_slice(o) if slice_ else A.cddl(o)
        try:
            r = P.run(E, fn, [Ref([arg], 0)])
        except Panic as e:
            return o, ("panic", e.kind, e.site), ("result",), None
        except Diverge:
            return o, ("diverge",), ("result",), None
        E.calls = []
        F = Flat(E)
        want = F.rules(o)
        ro = bad_regex_opts(E, E.notes)
        if r.var == 1:
            E.force(r.f[0])
            n = P.vname(r.f[0])
            code = ("error", n)
            if F.err:
                if n in F.err or n in ("Unsupported", "Structural", "GenericError") and "Unsupported" not in F.err:
                    return o, code, code, ro
                return o, code, ("error", "/".join(sorted(set(F.err)))), ro
            return o, code, ("accept",), ro
        if F.err:
            return o, ("accept",), ("error", "/".join(sorted(set(F.err)))), ro
        m = r.f[0]
        if type(m) is not MapV:
            raise Undecided("flatten result")
        got = [(k, v) for k, v in m.e]
        if len(got) != len(want):
            return o, ("%d rules" % len(got),), ("%d rules" % len(want),), ro
        for i, (n, ps, nd) in enumerate(want):
            for k, v in got:
                if same(E, k, n):
                    break
            else:
                return o, ("rule %s lost" % n,), ("every rule",), ro
            w = B.ruledef(ps, nd)
            v = unwrapv(v)
            if slice_:
                s = SymStr("text%d" % i)
                if not same(E, v.f[1], s):
                    return o, ("rule %s with text %s" % (n, v.f[1]),), ("its own text",), ro
                v = v.f[0]
            if not same(E, v, w):
                return o, ("tree %s" % core.show(v)[:400],), ("tree %s" % core.show(w)[:400],), ro
        return o, ("same",), ("same",), ro

    for E, (kind, r) in explore(P, body, fuel, max_paths, deadline):
        st["paths"] += 1
        touched |= E.touched
        if kind == "ok":
            o, cv, sv, ro = r
            if cv == sv and ro is None:
                st["decided"] += 1
            elif E.imprecise:
                st["imprecise"] += 1
            else:
                st["decided"] += 1
                path = replay(P, body, E.trace, fuel) if len(bad) < 3 else []
                if cv == sv:
                    cv, sv = ("regex-option", ro), ("default options, limited memory",)
                bad.append(dict(code=cv, spec=sv, facts=describe(E), ob=o, path=path[-60:], where=cv[2] if cv[0] == "panic" else site(path)))
        else:
            st[kind] += 1
            if kind == "undecided":
                und[r] = und.get(r, 0) + 1
    return st, bad, und, touched


# ------------------------------------------------------------- obligations
def n(x, *a):
    return ("n", x, list(a))


def s(x):
    return ("s", x)


def sn(x, *a):
    return s(n(x, *a))


def mem(t, k=None, occ=None):
    return (occ, ("mem", k, t))


OCCS = [("?",), ("*",), ("+",), ("n", 0, 0), ("n", 2, 3), ("n", 0, (1 << 64) - 1), ("n", 5, 2)]


def values():
    return [("vt", SymStr("tx")), ("vt", "true"), ("vt", "int"), ("vu", 0), ("vu", 7), ("vu", (1 << 64) - 1), ("vn", -1), ("vn", -(1 << 63)), ("vf", F1), ("vb", SymBytes("bx"))]


def fillers():
    """type2 samples"""
    out = [("v", v) for v in values()]
    out += [n("foo"), n("foo", sn("a")), n("foo", sn("a"), sn("b"), s(("v", ("vu", 1)))), n("int"), n("true"), n("number"), n("tstr", sn("a")),
            n("time", sn("a")), ("par", [sn("a")]), ("par", [sn("a"), sn("b")]), ("par", []), ("par", [("rng", ("v", ("vu", 1)), ("v", ("vu", 2)), True)]),
            ("map", [[]]), ("map", [[mem([sn("a")], (("bw", "k"), True))]]), ("map", [[mem([sn("a")])], [mem([sn("b")])]]),
            ("arr", [[]]), ("arr", [[mem([sn("a")]), mem([sn("b")])]]), ("arr", [[], [mem([sn("c")])]]),
            ("arr", []), ("unw", "g", []), ("unw", "g", [sn("a"), sn("b")]), ("unw", "int", []), ("unw", "g", [sn("number")]),
            ("cfi", [[mem([sn("a")], (("bw", "k"), True)), mem([sn("b")])]]), ("cfi", [[mem([sn("a")])], [mem([sn("b")])]]),
            ("cf", "g", []), ("cf", "g", [sn("a")]), ("cf", "tstr", []), ("cf", "true", [])]
    return out


def sym(nm):
    """typename with symbolic name"""
    return ("n", SymStr(nm), [])


def contexts():
    """(tags, label, f: type2 -> rules)"""
    def r(t):
        return [("r0", [], ("t", t))]

    def rg(e):
        return [("r0", [], ("g", e))]
    A, B = sn("aa"), sn("bb")
    V = lambda i: ("v", ("vu", i))
    out = [("", "alone", lambda x: r([s(x)])),
           ("choice", "1st of 2", lambda x: r([s(x), A])), ("choice", "2nd of 2", lambda x: r([A, s(x)])), ("choice", "2nd of 3", lambda x: r([A, s(x), B])),
           ("choice", "3rd of 3", lambda x: r([A, B, s(x)])),
           ("range", "range start", lambda x: r([("rng", x, V(9), True)])), ("range", "range end", lambda x: r([("rng", V(1), x, False)])),
           ("range", "xrange start", lambda x: r([("rng", x, n("zz"), False)])),
           ("", "parens", lambda x: r([s(("par", [s(x)]))])), ("choice", "parens choice", lambda x: r([s(("par", [A, s(x)]))])),
           ("", "rule of 3", lambda x: [("r0", [], ("t", [A])), ("r1", ["p", "q"], ("t", [s(x)])), ("r2", ["z"], ("g", mem([B])))]),
           ("generic", "1st generic arg", lambda x: r([sn("g", s(x), B)])), ("generic", "2nd generic arg", lambda x: r([sn("g", A, s(x))])),
           ("generic", "arg of builtin", lambda x: r([sn("int", s(x))])),
           ("generic unwrap", "unwrap arg", lambda x: r([s(("unw", "g", [s(x)]))])), ("generic choiceify", "choiceify arg", lambda x: r([s(("cf", "g", [A, s(x)]))])),
           ("group", "group rule member", lambda x: rg(mem([s(x)]))), ("group cut", "group rule keyed", lambda x: rg(mem([s(x)], (("bw", "k"), True)))),
           ("group", "group rule parens", lambda x: rg((None, ("pg", [[mem([s(x)]), mem([B])]])))),
           ("group choice", "group rule parens 2nd choice", lambda x: rg((None, ("pg", [[mem([A])], [mem([s(x)])]])))),
           ("group choice", "group of 3 choices", lambda x: rg((None, ("pg", [[mem([A])], [mem([s(x)]), mem([B])], [mem([B])]])))),
           ("occur", "group rule optional", lambda x: rg((("?",), ("pg", [[mem([s(x)])]]))))]
    for op in ("size", "lt", "le", "gt", "ge", "regexp", "cbor"):
        tgt = {"regexp": "tstr", "cbor": "bstr", "size": "tstr"}.get(op, "int")
        out.append(("ctl " + op, "target of ." + op, lambda x, op=op: r([("ctl", op, x, ("v", ("vt", "p")) if op == "regexp" else V(4))])))
        out.append(("ctl " + op, "argument of ." + op, lambda x, op=op, tgt=tgt: r([("ctl", op, n(tgt), x)])))
        out.append(("ctl " + op, "argument of parenthesised target ." + op, lambda x, op=op, tgt=tgt: r([A, ("ctl", op, ("par", [sn(tgt)]), x)])))
    for op in ("bits", "eq", "ne", "default", "and", "within", "cborseq", "sizes", "LT", ""):
        out.append(("ctl", "argument of .%s" % op, lambda x, op=op: r([("ctl", op, n("int"), x)])))
    for k in ("map", "arr", "cfi"):
        tg = {"map": "map", "arr": "array", "cfi": "choiceify"}[k]
        out.append((tg, "member of " + k, lambda x, k=k: r([s((k, [[mem([s(x)])]]))])))
        out.append((tg + " choice", "choice member of " + k, lambda x, k=k: r([s((k, [[mem([A]), mem([s(x), B]), mem([B])]]))])))
        out.append((tg + " choice", "2nd group choice of " + k, lambda x, k=k: r([s((k, [[mem([A])], [mem([s(x)]), mem([B])]]))])))
        out.append((tg, "inner group of " + k, lambda x, k=k: r([s((k, [[(None, ("pg", [[mem([s(x)]), mem([B])]])), mem([A])]]))])))
        out.append((tg + " choice", "inner group choice of " + k, lambda x, k=k: r([s((k, [[(None, ("pg", [[mem([A])], [mem([s(x)])]])), mem([A])]]))])))
        for cut in (True, False):
            out.append((tg + " cut", "value of %s key %s" % ("cut" if cut else "plain", k), lambda x, k=k, cut=cut: r([s((k, [[mem([s(x)], (("bw", "kk"), cut)), mem([B])]]))])))
            out.append((tg + " cut", "value of %s value key %s" % ("cut" if cut else "plain", k), lambda x, k=k, cut=cut: r([s((k, [[mem([s(x)], (("v", ("vu", 3)), cut))]]))])))
            out.append((tg + " cut", "%s type key of %s" % ("cut" if cut else "plain", k), lambda x, k=k, cut=cut: r([s((k, [[mem([A], (("t1", s(x)), cut))]]))])))
        for o in OCCS:
            out.append((tg + " occur", "%s member of %s" % (o, k), lambda x, k=k, o=o: r([s((k, [[mem([s(x)], None, o)]]))])))
            out.append((tg + " occur", "%s group in %s" % (o, k), lambda x, k=k, o=o: r([s((k, [[mem([A]), (o, ("pg", [[mem([s(x)], (("bw", "kk"), True))]]))]]))])))
    return out


def multi():
    """several interacting parts, and the leaves not reached through a type2"""
    out = []
    for v in values():
        for cut in (True, False):
            for k in ("map", "arr", "cfi"):
                out.append((k + " cut value", "value key", [("r0", [], ("t", [s((k, [[mem([sn("a")], (("v", v), cut))]]))]))]))
    for w in ("k", "int", "true", SymStr("bw")):
        for cut in (True, False):
            for k in ("map", "arr", "cfi"):
                out.append((k + " cut value", "bareword key", [("r0", [], ("t", [s((k, [[mem([sn("a")], (("bw", w), cut))]]))]))]))
    for a in values():
        for b in values():
            for incl in (True, False):
                out.append(("range value", "range", [("r0", [], ("t", [("rng", ("v", a), ("v", b), incl)]))]))
    for k in ("map", "arr", "cfi"):
        for g in ([[(None, ("gn", "foo"))]], [[(("?",), ("gn", "foo")), (("*",), ("gn", "bar"))]], [[(None, ("gn", "int"))]], [[(None, ("gn", "number"))]],
                  [[(None, ("gn", "a"))], [(None, ("gn", "b"))], [(None, ("gn", "c"))]], [[], []], [[(None, ("pg", [[]]))]], [[(None, ("pg", []))]],
                  [[(None, ("pg", [[(None, ("pg", [[(None, ("gn", "x"))]]))]]))]], [[mem([])]], [[mem([sn("a")], (("t1", s(n("number"))), True))]],
                  [[mem([sn("number")], (("bw", "k"), True))]], [[mem([sn("a")]), mem([sn("number")])]], [[mem([sn("a")])], [mem([sn("number")])]]):
            out.append((k + " group", "group entries", [("r0", [], ("t", [s((k, g))]))]))
            for o in OCCS:
                g2 = [[(o, e[1]) for e in c] for c in g]
                out.append((k + " occur", "group entries with occurrence", [("r0", [], ("t", [s((k, g2))]))]))
    for ps in ([], ["a"], ["a", "b"], ["b", "a", "c"]):
        out.append(("generic", "generic parameters", [("r0", ps, ("t", [sn("a")])), ("r1", list(reversed(ps)), ("g", mem([sn("b")])))]))
    for i in range(4):
        out.append(("rules", "%d rules" % i, [("r%d" % j, [], ("t", [sn("x%d" % j)])) for j in range(i)]))
        for j in range(i):
            rs = [("r%d" % q, [], ("t", [sn("number" if q == j else "x")])) for q in range(i)]
            out.append(("rules", "%d rules, %d broken" % (i, j), rs))
    return out


def symbolic():
    """symbolic names, operators, numbers"""
    out = []
    for tg, lab, f in contexts():
        if lab.startswith("argument of parenth") or "occur" in tg and "('?',)" not in lab:
            continue
        out.append(("name " + tg, "any name as " + lab, lambda E, f=f: f(sym("NAME"))))
    r = lambda t: [("r0", [], ("t", t))]
    for k in ("n", "unw", "cf"):
        for a in ([], [sn("q")], [sn("q"), sn("number")]):
            out.append(("name generic unwrap choiceify", "any name, %s with %d arguments" % (k, len(a)), lambda E, k=k, a=a: r([s((k, SymStr("NAME"), a))])))
    for k in ("map", "arr", "cfi"):
        out.append(("name", "any group name in " + k, lambda E, k=k: r([s((k, [[(None, ("gn", SymStr("NAME"))), (None, ("gn", "b"))]]))])))
        out.append(("name", "any optional group name in " + k, lambda E, k=k: r([s((k, [[(("?",), ("gn", SymStr("NAME")))]]))])))
    out.append(("name", "group rule naming any group", lambda E: [("r0", [], ("g", (None, ("gn", SymStr("NAME")))))]))
    out.append(("name generic", "any rule and parameter names", lambda E: [(SymStr("RULE"), [SymStr("P1"), SymStr("P2")], ("t", [sn("a")]))]))
    for t, a in ((n("tstr"), ("v", ("vt", SymStr("pat")))), (n("int"), ("v", ("vu", 1))), (n("bstr"), n("foo")), (n("foo"), n("bar")), (n("uint"), ("par", [("rng", ("v", ("vu", 1)), ("v", ("vu", 2)), True)]))):
        out.append(("ctl size lt le gt ge regexp cbor", "any operator", lambda E, t=t, a=a: r([("ctl", SymStr("OP"), t, a)])))
    out.append(("value", "any uint", lambda E: r([s(("v", ("vu", E.int_var(0, (1 << 64) - 1))))])))
    out.append(("value", "any nint", lambda E: r([s(("v", ("vn", E.int_var(-(1 << 63), -1))))])))
    out.append(("value", "any float", lambda E: r([s(("v", ("vf", FV(v=E.z.var(), id="fl"))))])))
    out.append(("range value", "any uint range", lambda E: r([("rng", ("v", ("vu", E.int_var(0, (1 << 64) - 1))), ("v", ("vu", E.int_var(0, (1 << 64) - 1))), True)])))
    out.append(("range value", "any int range", lambda E: r([("rng", ("v", ("vn", E.int_var(-(1 << 63), 0))), ("v", ("vu", E.int_var(0, (1 << 64) - 1))), False)])))
    for op in ("size", "lt", "le", "gt", "ge"):
        out.append(("ctl value " + op, "any bound of ." + op, lambda E, op=op: r([("ctl", op, n("uint"), ("v", ("vu", E.int_var(0, (1 << 64) - 1))))])))
        out.append(("ctl value " + op, "any negative bound of ." + op, lambda E, op=op: r([("ctl", op, n("uint"), ("v", ("vn", E.int_var(-(1 << 63), -1))))])))
    U = (1 << 64) - 1
    for k in ("map", "arr"):
        out.append(("occur", "any n*m in " + k, lambda E, k=k: r([s((k, [[mem([sn("a")], None, ("n", E.int_var(0, U), E.int_var(0, U)))]]))])))
    return out


def obligations(tier="quick"):
    """(tags, name, rules or callable)"""
    out = []
    C, Fs = contexts(), fillers()
    for tg, lab, f in C:
        for x in Fs:
            out.append((tg + " " + kind(x), "%s <- %s" % (lab, x), f(x)))
    # contexts inside contexts
    inner = [(tg, lab, f) for tg, lab, f in C]
    k = 0
    for tg, lab, f in C:
        for tg2, lab2, f2 in inner:
            b = f2(n("leaf"))
            if len(b) != 1 or b[0][2][0] != "t":
                continue
            b2 = f2(n("number"))
            out.append((tg + " " + tg2, "%s <- (%s <- leaf)" % (lab, lab2), f(("par", b[0][2][1]))))
            if tier != "quick":
                out.append((tg + " " + tg2, "%s <- (%s <- unsupported)" % (lab, lab2), f(("par", b2[0][2][1]))))
                if len(b[0][2][1]) == 1 and b[0][2][1][0][0] == "s":
                    out.append((tg + " " + tg2, "%s <- %s <- leaf" % (lab, lab2), f(b[0][2][1][0][1])))
            elif len(b[0][2][1]) == 1 and b[0][2][1][0][0] == "s":
                out.append((tg + " " + tg2, "%s <- %s <- unsupported" % (lab, lab2), f(b2[0][2][1][0][1])))
    out += multi()
    out += symbolic()
    return out


def table():
    """every documented name, and near misses, in every position of a name"""
    out = []
    near = ["Any", "nul", "nulls", "NULL", "float8", "float128", "float16-64", "float-32", "string", "bytess", "b64", "cborany", "cbor", "int8", "number2", "uint64",
            "#", "tru", "True", "bignum", "ints", "nints", "uints", "undef", "mime", "date", "eb64", "regex", "tstrs", "encoded", "foo", "$socket", "$$plug", "_", "@x"]
    for nm in NAMES + near:
        for lab, t in (("typename", [sn(nm)]), ("with arguments", [sn(nm, sn("q"))]), ("unwrapped", [s(("unw", nm, []))]), ("choiceified", [s(("cf", nm, []))]),
                       ("range end", [("rng", ("v", ("vu", 1)), n(nm), True)]), ("range start", [("rng", n(nm), ("v", ("vu", 1)), False)]),
                       ("size", [("ctl", "size", n("tstr"), n(nm))]), ("sized", [("ctl", "size", n(nm), ("v", ("vu", 4)))]), ("lt", [("ctl", "lt", n(nm), n(nm))]),
                       ("regexp target", [("ctl", "regexp", n(nm), ("v", ("vt", "p")))]), ("regexp", [("ctl", "regexp", n("tstr"), n(nm))]),
                       ("cbor target", [("ctl", "cbor", n(nm), n("foo"))]), ("cbor", [("ctl", "cbor", n("bstr"), n(nm))]),
                       ("group name", [s(("map", [[(None, ("gn", nm))]]))]), ("key", [s(("map", [[mem([sn("a")], (("t1", sn(nm)), True))]]))])):
            out.append(("name", "%s %s" % (nm, lab), [("r0", [], ("t", t))]))
    return out


def kind(x):
    return {"v": "value", "n": "", "unw": "unwrap", "cfi": "choiceify", "cf": "choiceify", "map": "map", "arr": "array", "par": ""}[x[0]]
