"""Compare the code's verdict with the reference on one obligation."""
from .core import (Agg, BoxV, Ref, SliceRef, StringV, SymStr, SymBytes, VecV, MapV, SI, FV, Obj, Undecided, Panic, Diverge,
                   explore, replay, Infeasible)
from .build import Builder, NotThisData
from . import ref as R


def resolve(x, E):
    """instantiate symbolic placeholders: callables take E"""
    return x


def code_verdict(P, r, E):
    if r.var == 0:
        return ("ok",)
    e = r.f[0]
    E.force(e)
    n = P.vname(e)
    if n == "Mismatch":
        return ("mismatch",)
    pay = None
    if n == "MissingRule":
        s = e.f[0]
        pay = s.v if isinstance(s, StringV) else s
    return ("fatal", n, pay)


def agree(code, spec):
    if spec[0] != code[0]:
        if spec[0] == "fatal" and spec[1] == "Structural*" and code[0] == "mismatch":
            return True
        return False
    if spec[0] != "fatal":
        return True
    a, b = code[1], spec[1].rstrip("*")
    if b == "Structural":
        return a in ("Structural", "Unsupported")
    if a != b:
        return False
    if b == "MissingRule" and spec[2] is not None:
        return isinstance(code[2], SymStr) or code[2] == spec[2]
    return True


def describe(E):
    out = []
    for k, v in E.facts.items():
        out.append("%s=%s" % ("/".join(str(x) for x in k), v))
    for t in E.trace:
        out.append("%s->%d" % (t[2], t[0]))
    return out


def site(path):
    """the local functions the trace went through, as a call-graph path"""
    seen = []
    for x in path:
        n = x.strip().split(" (from")[0].replace("cddl_cat::", "")
        if n.startswith("validate::") or n.startswith("cbor::validate") or n.startswith("flatten::") or n.startswith("parser::"):
            if n not in seen:
                seen.append(n)
    src = [x for x in path if "::" in x][-1:]
    loc = src[0].split("(from ")[1].rstrip(")") if src else "?"
    return "%s (last call site %s)" % (" > ".join(seen[:14]), loc)


def check(P, ob, fuel=300000, max_paths=20000, deadline=None, entry="cbor"):
    """ob: dict(env={name:(parms,node)} , root=(parms,node), data=tmpl) or a
    callable E -> such dict (for symbolic scalars)."""
    B = Builder(P)
    fn = P.byname.get("cddl_cat::%s::validate_%s" % (entry, entry))
    if fn is None or not fn.has:
        raise KeyError("entry point validate_%s not found" % entry)
    st = dict(paths=0, decided=0, undecided=0, infeasible=0, imprecise=0, budget=0)
    bad = []
    und = {}
    touched = set()

    def body(E):
        o = ob(E) if callable(ob) else ob
        rules = [(n, B.ruledef(ps, nd)) for n, (ps, nd) in o["env"].items()]
        env = Obj("env", rules=rules)
        root = B.ruledef(*o["root"])
        try:
            data = B.cbor(o["data"]) if entry == "cbor" else B.json(o["data"])
        except NotThisData:
            raise Infeasible()
        try:
            r = P.run(E, fn, [Ref([root], 0), Ref([data], 0), Ref([env], 0)])
            cv = code_verdict(P, r, E)
        except Panic as e:
            cv = ("panic", e.kind, e.site)
        except Diverge:
            cv = ("diverge",)
        E.calls = []
        E.fuel = fuel
        rf = R.Ref(E, o["env"], o.get("cbor_feature", True))

        def ref():
            if o["root"][0]:
                raise R.Fatal("GenericError")
            rf.representable(o["data"])
            rf.val(o["data"], o["root"][1], R.Ctx())
        sv = R.verdict(ref)
        return o, cv, sv

    for E, (kind, r) in explore(P, body, fuel, max_paths, deadline):
        st["paths"] += 1
        touched |= E.touched
        if kind == "ok":
            o, cv, sv = r
            if agree(cv, sv):
                st["decided"] += 1
            elif E.imprecise:
                st["imprecise"] += 1
            else:
                st["decided"] += 1
                path = replay(P, body, E.trace, fuel) if len(bad) < 3 else []
                deepest = [x.strip() for x in path][-1:] or ["?"]
                bad.append(dict(code=cv, spec=sv, facts=describe(E), ob=o, path=path[-60:],
                                where=cv[2] if cv[0] == "panic" else site(path)))
        else:
            st[kind] += 1
            if kind == "undecided":
                und[r] = und.get(r, 0) + 1
    return st, bad, und, touched
