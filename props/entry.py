"""The text / byte entry points against the composition of the tree entry points (C24, C25, C34).

Each obligation runs, in one abstract trace, a text entry point and then the steps it stands for
(parse, flatten, look the rule up, decode, check that nothing follows, validate), so that every
symbolic fact (characters, the name, the outcome of decoding, the data) is shared by both."""
import copy
import itertools
import random

from absint import core, ext, textm
from absint.core import Agg, Ref, StringV, SymStr, SymBytes, VecV, MapV, SI, FV, Obj, Panic, Diverge, Undecided, explore, replay
from absint.build import Builder
from absint.models import text
from absint.vrun import describe, site
from . import flat
from .parse import Ref_, Fail, DontCare, err_kind, input_text, mkcells, render, conc, ends, mktext, BADLIT, CTX


def fn(P, name):
    f = P.byname.get("cddl_cat::" + name)
    if f is None or not f.has:
        raise KeyError("entry point " + name)
    return f


def verdict(P, E, r):
    E.force(r)
    if r.var == 0:
        return ("ok",)
    e = r.f[0]
    E.force(e)
    if e.ty == P.adt("parser::parse_err::ParseError"):
        return ("error", "ParseError", err_kind(P, E, e))
    n = P.vname(e)
    if n == "ParseError":
        return ("error", n, err_kind(P, E, e.f[0]))
    if n == "MissingRule":
        return ("error", n, e.f[0])
    if n in ("Mismatch", "MapCut"):
        return ("mismatch", n)
    return ("error", n)


def agree(E, a, b):
    if a[:2] != b[:2] or len(a) != len(b):
        return False
    if len(a) == 3 and not isinstance(a[2], str):
        x, y = flat.unwrapv(a[2]), flat.unwrapv(b[2])
        if isinstance(x, (StringV,)):
            x = x.v
        if isinstance(y, (StringV,)):
            y = y.v
        if isinstance(x, VecV) or isinstance(y, VecV):
            return flat.same(E, x, y)
        return bool(E.streq(x, y))
    return a == b


def nm(E, name):
    return SymStr("name") if name is None else name


MEMO = {}
PARSE = ("cddl_cat::parser::parse_cddl", "cddl_cat::parser::slice_parse_cddl")


def memo(E, f, args):
    """parsing a fully known text is done once per process"""
    if f.name not in PARSE or len(args) != 1 or type(args[0]) is not SymStr:
        return NotImplemented
    s = textm.known(args[0])
    if s is None:
        return NotImplemented
    k = (f.name, s, args[0].id)
    if k not in MEMO:
        n, t, im = len(E.trace), set(E.touched), E.imprecise
        E.touched = set()
        r = E.p.run(E, f, args)
        if len(E.trace) != n or E.imprecise:
            E.touched |= t
            return r
        if len(MEMO) > 400:
            MEMO.clear()
        MEMO[k] = (copy.deepcopy(r), E.touched)
        E.touched = E.touched | t
        return r
    r, t = MEMO[k]
    E.touched |= t
    return copy.deepcopy(r)


def check(P, ob, fuel=600000, max_paths=6000, deadline=None):
    B = Builder(P)
    entry = ob["entry"]
    st = dict(paths=0, decided=0, undecided=0, infeasible=0, imprecise=0, budget=0)
    bad, und, touched = [], {}, set()
    F = lambda n: fn(P, n)
    for p in PARSE:
        if p in P.byname:
            P.byname[p].hook = True

    def run(E, name, args):
        E.fuel = fuel
        r = memo(E, F(name), args)
        return P.run(E, F(name), args) if r is NotImplemented else r

    def tree(E, cs, sl=""):
        """flatten(parse(text)) -> (error verdict, None) | (None, map)"""
        r = run(E, "parser::%sparse_cddl" % sl, [input_text(E, cs)])
        E.force(r)
        if r.var == 1:
            return ("error", "ParseError", err_kind(P, E, r.f[0])), None
        r = run(E, "flatten::%sflatten" % sl, [Ref([r.f[0]], 0)])
        E.force(r)
        if r.var == 1:
            return verdict(P, E, r), None
        return None, r.f[0]

    def steps(E, cs, kind, name, data):
        e, m = tree(E, cs)
        if e:
            return e
        rd = None
        env = [(text(k), v) for k, v in m.e]
        for k, v in env:
            if E.streq(text(k), name):
                rd = v
        if rd is None:
            return ("error", "MissingRule", name)
        if kind == "json":
            if ext.json_outcome(E, data):
                return ("error", "ValueError")
        elif ext.cbor_outcome(E, data):
            return ("error", "ValueError")
        d = data.info["data"](E)
        r = run(E, "%s::validate_%s" % (kind, kind), [Ref([rd], 0), Ref([d], 0), Ref([Obj("env", rules=env)], 0)])
        return verdict(P, E, r)

    def value_entry(E, cs, kind, t=None):
        t = t or (ob["data"](E) if callable(ob["data"]) else ob["data"])
        name = nm(E, ob["name"])
        if kind == "json":
            d = SymStr("jsontext", {"data": lambda E: B.json(t)})
            r = run(E, "json::validate_json_str", [name, input_text(E, cs), d])
        else:
            d = SymBytes("cborbytes", {"data": lambda E: B.cbor(t)})
            r = run(E, "cbor::validate_cbor_bytes", [name, input_text(E, cs), d])
        return name, d, verdict(P, E, r)

    def reference(E, cs):
        R = Ref_(E, cs)
        try:
            return R, R.cddl(), None
        except Fail as e:
            return R, None, e.kind

    def body(E):
        cs = mkcells(E, ob)
        E.hooks = [memo]
        try:
            if entry in ("json", "cbor"):
                name, d, cv = value_entry(E, cs, entry)
                cs2 = cs
                try:
                    sv = steps(E, cs2, entry, name, d)
                except (Panic, Diverge):
                    return ("any",), ("any",)       # C18/C30 report it
                return (cv, cv) if agree(E, cv, sv) else (cv, sv)
            if entry == "both":
                t = ob["data"](E) if callable(ob["data"]) else ob["data"]
                name, d, cv = value_entry(E, cs, "json", t)
                name, d2, cw = value_entry(E, cs, "cbor", t)
                a, b = ext.json_outcome(E, d), ext.cbor_outcome(E, d2)
                if (a != 0) != (b != 0):
                    return ("any",), ("any",)
                return (cv, cv) if agree(E, cv, cw) else (("json",) + cv, ("cbor",) + cw)
            if entry == "kind":
                # the error kind, through one function that parses
                f = ob["fn"]
                args = dict(parse=lambda: [input_text(E, cs)], flat=lambda: [input_text(E, cs)],
                            json=lambda: ["a", input_text(E, cs), SymStr("j", {"data": lambda E: B.json(("null",))})],
                            cbor=lambda: ["a", input_text(E, cs), SymBytes("c", {"data": lambda E: B.cbor(("null",))})])[ob["args"]]()
                cv = verdict(P, E, run(E, f, args))
                E.calls = []
                try:
                    R, want, wk = reference(E, cs)
                except DontCare:
                    return ("any",), ("any",)
                got = cv if cv[:2] == ("error", "ParseError") else ("no parse error",)
                return got, ("error", "ParseError", wk) if want is None else ("no parse error",)
            sl = "slice_" if entry == "slice_flatten_from_str" else ""
            r = run(E, "flatten::" + entry, [input_text(E, cs)])
            E.force(r)
            cv = verdict(P, E, r)
            E.calls = []
            e, m = tree(E, cs)
            if e or r.var == 1:
                e = e or ("ok",)
                return (cv, cv) if agree(E, cv, e) else (cv, e)
            g = r.f[0]
            if len(g.e) != len(m.e):
                return ("%d rules" % len(g.e),), ("%d rules" % len(m.e),)
            try:
                R, want, wk = reference(E, cs)
            except DontCare:
                return ("any",), ("any",)
            if want is None:
                return ("accept",), ("error", wk)
            for k, v in m.e:
                for k2, v2 in g.e:
                    if flat.same(E, k, k2):
                        break
                else:
                    return ("rule %s missing" % (k,),), ("every rule",)
                if sl:
                    v2 = flat.unwrapv(v2)
                    s = text(v2.f[1])
                    v2 = v2.f[0]
                    t = textm.tx(s)
                    spans = [(a, b) for a, b, w in want if flat.same(E, k, StringV(mktext(E, w[0]) if isinstance(w[0], list) else w[0]))]
                    if not spans:
                        return ("unexpected rule",), ("no such rule",)
                    a, b = spans[-1]
                    if t is None or t[0].id != "input":
                        if not any(E.streq(s, mktext(E, cs[a:x])) for x in ends(R, a, b)):
                            return ("rule with another text",), ("rule text",)
                    elif t[1] != a or t[2] != b and t[2] not in ends(R, a, b):
                        return ("rule text %d..%d" % (t[1], t[2]),), ("rule text %d..%d" % (a, b),)
                if not flat.same(E, v, v2):
                    return ("tree %s" % core.show(v2)[:300],), ("tree %s" % core.show(v)[:300],)
            return ("same",), ("same",)
        except Panic as e:
            return ("panic", e.kind, e.site), ("result",)
        except Diverge:
            return ("diverge",), ("result",)

    fuel = max(fuel, 4000 * len(ob["cells"]))
    for E, (kind, r) in explore(P, body, fuel, max_paths, deadline):
        st["paths"] += 1
        touched |= E.touched
        if kind == "ok":
            cv, sv = r
            if cv == sv or cv[0] in ("panic", "diverge"):       # panics: C18, C30
                st["decided"] += 1
            elif E.imprecise:
                st["imprecise"] += 1
            else:
                st["decided"] += 1
                path = replay(P, body, E.trace, fuel) if len(bad) < 3 else []
                bad.append(dict(code=cv, spec=sv, facts=describe(E), ob=ob, path=path[-60:], where=site(path)))
        else:
            st[kind] += 1
            if kind == "undecided":
                und[r] = und.get(r, 0) + 1
    return st, bad, und, touched


def show(ob):
    return "%s(%s%s)" % (ob.get("fn") or ob["entry"], "name %s, " % (ob["name"] or "?") if "name" in ob else "", render(ob["cells"]))


# ------------------------------------------------------------- obligations
TEXTS = ["a=int", "a=int b=tstr", "a=b b=int", "b=tstr a={k:b}", "a=[*b] b=int/tstr", "a<p>=p b=a<int>", "a=b<int> b<p>=[p]", "a=b", "a={b} b=(k:int)", "a=~b b=[int]",
         "a={? \"k\"=>int, * tstr=>any}", "a=1..3", "a=tstr .size 2", "a=uint .lt 4", "a=[+ (int // tstr)]", "a=int a=tstr", "a=a", "ab=int a=nil abc=bool", "a=true", "a=\"k\"", "a=nint b=(int)",
         "a=&(x:1,y:2)", ";c\na=float;d\n", "a=bstr .cbor int", "a=any", "a=[]", "a={}"]
REFUSED = ["a=int .foo 3", "a=int b=tdate", "a=b..int", "a=tstr .regexp 3", "b=int a=int<tstr>", "a=~int", "a=[b64url]", "a=int .size tstr", "a=bstr .cbor 1..2 .lt 3"]
BAD = ["", " ", "a", "a=", "a=int b", "a=[", "a=int)", "a=99999999999999999999", "a=1e999", "a=\"\\q\"", "a=h'0'", "a=b64'A'", "b=int a=int=", "a=int .foo", "a=[99999999999999999999*b]", ";"]
NAMES = [None, "a", "b", "zz", ""]


def nested(n):
    d = ("null",)
    for _ in range(n):
        d = ("arr", [d])
    return d


def datas(kind):
    L = [("null",), ("bool", True), ("t", SymStr("s")), ("t", "k"), ("arr", []), ("arr", [("int", 1), ("t", SymStr("s"))]), ("map", []),
         ("map", [(("t", "k"), ("int", 1))]), ("map", [(("t", SymStr("s")), ("null",))]), ("arr", [("arr", [("null",)])]), nested(20), nested(100)]
    L += [lambda E: ("int", E.int_var(-(1 << 63), (1 << 64) - 1)), lambda E: ("float", FV(v=E.z.var(), id="f"))]
    if kind == "cbor":
        L += [("tag", ("int", 1)), ("map", [(("t", "k"), ("int", 1)), (("t", "k"), ("int", 2))]), ("bytes", SymBytes("bb")), lambda E: ("int", E.int_var(-(1 << 64), (1 << 64) - 1)),
              ("map", [(("null",), ("int", 1))]), ("arr", [("tag", ("null",))])]
    return L


def obligations(prop, tier):
    out = []

    def add(o):
        out.append((show(o) + (" on %d" % o["di"] if "di" in o else ""), o))
    if prop == "C24":
        for kind in ("json", "cbor"):
            D = datas(kind)
            for t in TEXTS + REFUSED + BAD:
                ds = list(enumerate(D)) if t in TEXTS else list(enumerate(D))[::5]
                for di, d in ds:
                    for ni, name in enumerate(NAMES if t in TEXTS else NAMES[:3]):
                        if tier == "quick" and (di + len(t) * 3 + 2 * ni) % (4 if ni == 0 else 12):
                            continue
                        add(dict(entry=kind, cells=conc(t), name=name, data=d, di=di))
            # one unknown character in the text
            for t in TEXTS + REFUSED[:3] if tier != "quick" else [t for t in TEXTS if len(t) < 13]:
                for i in range(len(t)) if tier != "quick" else range(len(t) % 3, len(t), 3):
                    add(dict(entry=kind, cells=conc(t[:i]) + [(0, 127)] + conc(t[i + 1:]), name=None, data=D[1 + (i + len(t)) % (len(D) - 1)], di=1 + (i + len(t)) % (len(D) - 1)))
        for t in TEXTS + REFUSED + BAD:
            for di, d in enumerate(datas("json")):
                for ni, name in enumerate((None, "a")):
                    if tier == "quick" and (di + len(t)) % (4 + 8 * ni):
                        continue
                    add(dict(entry="both", cells=conc(t), name=name, data=d, di=di))
    elif prop == "C25":
        for e in ("slice_flatten_from_str", "flatten_from_str"):
            T = TEXTS + REFUSED + BAD
            for t in T:
                add(dict(entry=e, cells=conc(t)))
                add(dict(entry=e, cells=conc(" ;x\n" + t + " \n;y\n")))
            for t in T if tier != "quick" else [t for t in T if len(t) < 12]:
                for i in range(len(t)) if tier != "quick" else range(len(t) % 3, len(t), 3):
                    add(dict(entry=e, cells=conc(t[:i]) + [(0, 127)] + conc(t[i + 1:])))
            for x, y in list(itertools.permutations(TEXTS[:12], 2))[::1 if tier != "quick" else 7]:
                add(dict(entry=e, cells=conc(x.replace("a", "q").replace("b", "w") + "\n" + y)))
    elif prop == "C34":
        fs = [("parser::slice_parse_cddl", "parse"), ("flatten::flatten_from_str", "flat"), ("flatten::slice_flatten_from_str", "flat"), ("json::validate_json_str", "json"), ("cbor::validate_cbor_bytes", "cbor")]
        T = BAD + ["a=" + b for b in BADLIT] + [c.replace("X", b) for c in CTX[::4] for b in BADLIT[:: 3]] + TEXTS[:6]
        for f, a in fs:
            for t in T:
                add(dict(entry="kind", fn=f, args=a, cells=conc(t)))
            for t in BAD[1:6] + ["a=1e9", "a=\"\\n\"", "a=h'00'", "a=b64'AA=='"]:
                for i in range(2, len(t)) if tier == "quick" else range(0, len(t)):
                    add(dict(entry="kind", fn=f, args=a, cells=conc(t[:i]) + [(0, 127)] + conc(t[i + 1:])))
    seen, res = set(), []
    for n, o in out:
        k = (n, tuple(o["cells"]))
        if k not in seen:
            seen.add(k)
            res.append((n, o))
    return res
