"""Build abstract IVT trees and data trees from template expressions.

Schema templates (python tuples):
  ('re', i)                 opaque leaf: tstr .regexp <pattern i>
  ('lit', x)                literal: str | SymStr | bool | int | SI | FV | SymBytes
  ('prel', 'Int')  ('rule', name, arg..)  ('choice', [..])
  ('map'|'arr'|'grp', [..])  ('kv', key, value, cut)
  ('occ', ('?',)|('*',)|('+',)|('n', lo, hi), node)
  ('unwrap', name, arg..)   ('cfy', name, arg..)   ('cfyi', [..])
  ('range', a, b, inclusive)   ('ctl', op, target, arg)
Data templates:
  ('t', i) text symbol, ordered by i; ('arr', [..]); ('map', [(k, v)..]);
  ('null',) ('bool', b) ('int', v) ('float', v) ('bytes', sym) ('tag', d)
"""
from .core import Agg, BoxV, RcV, Ref, SliceRef, StringV, SymStr, SymBytes, VecV, MapV, SI, FV, Obj, Undecided


def txt(i):
    return SymStr("t%s" % (i,), {"rank": i}) if not isinstance(i, (str, SymStr)) else i


class NotThisData(Exception):
    """data this encoding cannot carry"""


class Builder:
    def __init__(self, prog):
        self.p = prog
        a = prog.adt
        self.node = a("ivt::Node")
        self.lit = a("ivt::Literal")
        self.pre = a("ivt::PreludeType")
        self.ctl = a("ivt::Control")
        self.occur = a("ast::Occur")
        self.value = a("value::Value")

    def st(self, tyname, **kw):
        """struct with automatic Box / Vec / String wrapping by field type"""
        t = self.p.adt(tyname)
        ti = self.p.types[t]
        fs = ti["v"][0]["f"]
        if {n for n, _ in fs} != set(kw):
            raise KeyError("fields of %s are %s" % (tyname, [n for n, _ in fs]))
        return Agg(t, 0, [self.co(ft, kw[n]) for n, ft in fs])

    def co(self, t, v):
        ti = self.p.types[t]
        if ti["k"] == "adt":
            s = ti["name"].split("::")[-1]
            if ti["box"] or s == "Box":
                return v if type(v) is BoxV else BoxV(self.co(ti["args"][0], v))
            if s in ("Rc", "Arc"):
                return v if type(v) is RcV else RcV(self.co(ti["args"][0], v))
            if s == "Vec":
                return VecV([self.co(ti["args"][0], x) for x in v]) if isinstance(v, list) else (v if type(v) is VecV else VecV(v))
            if s == "String":
                return StringV(v) if isinstance(v, (str, SymStr)) else v
            if s == "Option":
                if v is None:
                    return Agg(None, 0, [])
                return v if type(v) is Agg and v.ty is None else Agg(None, 1, [self.co(ti["args"][0], v)])
            if s == "BTreeMap":
                return MapV(v, True) if isinstance(v, list) else v
            if s == "HashMap":
                return MapV(v, False) if isinstance(v, list) else v
        return v

    def en(self, tid, var, *a):
        """enum variant, positional payload"""
        v = self.p.variant(tid, var)
        fs = self.p.types[tid]["v"][v]["f"]
        if len(fs) != len(a):
            raise KeyError("payload of %s" % var)
        return Agg(tid, v, [self.co(ft, x) for (_, ft), x in zip(fs, a)])

    def literal(self, x):
        if isinstance(x, (str, SymStr)):
            return self.en(self.lit, "Text", x)
        if isinstance(x, bool):
            return self.en(self.lit, "Bool", x)
        if isinstance(x, (int, SI)):
            return self.en(self.lit, "Int", x)
        if isinstance(x, FV):
            return self.en(self.lit, "Float", x)
        if isinstance(x, SymBytes):
            return self.en(self.lit, "Bytes", VecV(x))
        raise KeyError(x)

    def rule(self, name, args):
        return self.st("ivt::Rule", name=name, generic_args=[self.n(a) for a in args])

    def occ(self, o):
        if o[0] == "?":
            return self.occ_en("Optional")
        if o[0] == "*":
            return self.occ_en("ZeroOrMore")
        if o[0] == "+":
            return self.occ_en("OneOrMore")
        return self.occ_en("Numbered", o[1], o[2])

    def occ_en(self, var, *a):
        # unit-like payload variants may carry marker structs
        tid = self.occur
        v = self.p.variant(tid, var)
        fs = self.p.types[tid]["v"][v]["f"]
        return Agg(tid, v, list(a))

    def n(self, t):
        k = t[0]
        N = self.node
        if k == "re":
            return self.en(N, "Control", self.en(self.ctl, "Regexp", self.st("ivt::CtlOpRegexp", re=Obj(
                "regex", pat="re%s" % (t[1],), opts=()))))
        if k == "lit":
            return self.en(N, "Literal", self.literal(t[1]))
        if k == "prel":
            return self.en(N, "PreludeType", self.en(self.pre, t[1]))
        if k == "rule":
            return self.en(N, "Rule", self.rule(t[1], t[2:]))
        if k == "unwrap":
            return self.en(N, "Unwrap", self.rule(t[1], t[2:]))
        if k == "cfy":
            return self.en(N, "Choiceify", self.rule(t[1], t[2:]))
        if k == "cfyi":
            return self.en(N, "ChoiceifyInline", self.st("ivt::Array", members=[self.n(x) for x in t[1]]))
        if k == "choice":
            return self.en(N, "Choice", self.st("ivt::Choice", options=[self.n(x) for x in t[1]]))
        if k == "map":
            return self.en(N, "Map", self.st("ivt::Map", members=[self.n(x) for x in t[1]]))
        if k == "arr":
            return self.en(N, "Array", self.st("ivt::Array", members=[self.n(x) for x in t[1]]))
        if k == "grp":
            return self.en(N, "Group", self.st("ivt::Group", members=[self.n(x) for x in t[1]]))
        if k == "kv":
            return self.en(N, "KeyValue", self.st("ivt::KeyValue", key=self.n(t[1]), value=self.n(t[2]), cut=t[3]))
        if k == "occ":
            return self.en(N, "Occur", self.st("ivt::Occur", limit=self.occ(t[1]), node=self.n(t[2])))
        if k == "range":
            return self.en(N, "Range", self.st("ivt::Range", start=self.n(t[1]), end=self.n(t[2]), inclusive=t[3]))
        if k == "ctl":
            op, tg, arg = t[1:4]
            if op == "size":
                c = self.en(self.ctl, "Size", self.st("ivt::CtlOpSize", target=self.n(tg), size=self.n(arg)))
            elif op == "cbor":
                c = self.en(self.ctl, "Cbor", self.st("ivt::CtlOpCbor", node=self.n(arg)))
            else:
                c = self.en(self.ctl, op.capitalize(), self.st("ivt::CtlOp" + op.capitalize(),
                                                               **{"target": self.n(tg), op: self.n(arg)}))
            return self.en(N, "Control", c)
        raise KeyError(k)

    def ruledef(self, parms, node):
        return self.st("ivt::RuleDef", generic_parms=list(parms), node=self.n(node))

    # ---- data
    def cbor(self, d):
        """ciborium::Value"""
        tid = self.p.adt("ciborium::Value")
        k = d[0]
        e = lambda v, *a: self.en(tid, v, *a)
        if k == "t":
            return e("Text", txt(d[1]))
        if k == "null":
            return e("Null")
        if k == "bool":
            return e("Bool", d[1])
        if k == "int":
            return e("Integer", Obj("cint", v=d[1]))
        if k == "float":
            return e("Float", d[1])
        if k == "bytes":
            b = d[1]
            if b.info and "tmpl" in b.info:
                b.info["data"] = lambda E: self.cbor(b.info["tmpl"])
            return e("Bytes", VecV(b))
        if k == "tag":
            return e("Tag", 7, self.cbor(d[1]))
        if k == "arr":
            return e("Array", VecV([self.cbor(x) for x in d[1]]))
        if k == "map":
            return e("Map", VecV([Agg(None, 0, [self.cbor(a), self.cbor(b)]) for a, b in d[1]]))
        raise KeyError(k)

    def json(self, d):
        tid = self.p.adt("serde_json::Value")
        k = d[0]
        e = lambda v, *a: Agg(tid, self.p.variant(tid, v), list(a))
        if k == "t":
            return e("String", StringV(txt(d[1])))
        if k == "null":
            return e("Null")
        if k == "bool":
            return e("Bool", d[1])
        if k == "int":
            return e("Number", Obj("jnum", k="int", v=d[1]))
        if k == "float":
            return e("Number", Obj("jnum", k="float", v=d[1]))
        if k == "arr":
            return e("Array", VecV([self.json(x) for x in d[1]]))
        if k == "map" and all(a[0] == "t" for a, b in d[1]):
            return e("Object", MapV([[StringV(txt(a[1])), self.json(b)] for a, b in d[1]], True))
        raise NotThisData(k)
