"""Load the MIR dump and compile each body to python block functions."""
import json
from . import core
from .core import (Agg, BoxV, RcV, Ref, SliceRef, StringV, SymStr, SymBytes, VecV, MapV, SI, FV, FnV, PyFn, Obj,
                   IterV, Discr, Undecided, Panic, Diverge, Infeasible)

TRANSPARENT = ("MaybeUninit", "ManuallyDrop", "Unique", "NonNull", "UnsafeCell", "MaybeDangling", "Pin")
PANICS = ("core::panicking::", "std::rt::begin_panic", "std::rt::panic", "std::option::unwrap_failed",
          "std::option::expect_failed", "std::result::unwrap_failed", "core::slice::slice_index_fail",
          "core::slice::index::", "core::str::slice_error_fail", "std::panicking::", "alloc::vec::remove::assert_failed",
          "core::option::", "core::result::", "std::cell::panic_already", "core::cell::panic_already")


CALLS = ("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")


class CallInfo:
    __slots__ = ("decl", "name", "inst", "ta", "dest", "site", "fn", "argt", "defn")


def cp(v):
    t = type(v)
    if t is Agg:
        if v.var is None:
            return v
        return Agg(v.ty, v.var, [cp(x) for x in v.f], v.sym)
    return v


def dr(x):
    t = type(x)
    if t is Ref:
        return x.b[x.k]
    if t is BoxV or t is RcV:
        return x.f[0]
    return x        # unsized place represented by its fat pointer


def fl(x, i):
    t = type(x)
    if t is Agg:
        if x.var is None:
            raise Undecided("field of unrefined %s" % x.sym)
        if i >= len(x.f):
            raise Undecided("field %d of %r" % (i, x))
        return x.f[i]
    if t is BoxV or t is Ref or t is RcV:
        return x
    raise Undecided("field %d of %s" % (i, t.__name__))


def rf(x, i):
    t = type(x)
    if t is Agg:
        if x.var is None:
            raise Undecided("field ref of unrefined %s" % x.sym)
        return Ref(x.f, i)
    raise Undecided("field ref of %s" % t.__name__)


def seqof(x):
    t = type(x)
    if t is SliceRef:
        return x.l, x.a, x.n
    if t is Agg:
        return x.f, 0, len(x.f)
    if t is VecV and type(x.l) is list:
        return x.l, 0, len(x.l)
    raise Undecided("index of %s" % t.__name__)


def ixr(E, x, i):
    l, a, n = seqof(x)
    i = E.conc(i)
    if i is None:
        raise Undecided("symbolic index")
    if not 0 <= i < n:
        raise Undecided("index out of range without bounds check")
    return Ref(l, a + i)


def ix(E, x, i):
    r = ixr(E, x, i)
    return r.b[r.k]


def cir(x, off, fromend):
    l, a, n = seqof(x)
    k = n - off if fromend else off
    return Ref(l, a + k)


def ssr(x, f, t, fromend):
    l, a, n = seqof(x)
    e = n - t if fromend else t
    return SliceRef(l, a + f, e - f)


def wr(p, v):
    t = type(p)
    if t is Ref:
        p.b[p.k] = v
    elif t is BoxV:
        p.f[0] = v
    else:
        raise Undecided("write through %s" % t.__name__)


def wf(x, i, v):
    if type(x) is Agg:
        x.f[i] = v
    else:
        raise Undecided("field write of %s" % type(x).__name__)


class Fn:
    def __init__(self, idx, d):
        self.idx, self.d = idx, d
        self.name, self.defn, self.local = d["name"], d["def"], d["local"]
        self.has = "blocks" in d
        self.code = None
        self.hook = None


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.types = d["types"]
        self.fns = [Fn(i, f) for i, f in enumerate(d["fns"])]
        self.statics = d["statics"]
        self.generic_fns = d["generic_fns"]
        self.adts = d["adts"]
        self.byname = {}
        for f in self.fns:
            self.byname.setdefault(f.name, f)
        self.hooks = []
        self.models = {}
        self.unsupported = {}
        self.adt_by_name = {}
        for i, t in enumerate(self.types):
            if t and t["k"] == "adt":
                self.adt_by_name.setdefault(t["name"], []).append(i)
        core.PROG = self
        self._cty = {}
        self._custom = {}
        self._ford = {}
        self._anyc = None

    # ---- types
    def custom_impl(self, tid, what):
        """hand-written local PartialEq / Ord of a type, or None when derived"""
        c = self._custom.get((tid, what))
        if c is None:
            c = (self._find_custom(tid, what),)
            self._custom[(tid, what)] = c
        return c[0]

    def _find_custom(self, tid, what):
        ti = self.types[tid]
        if ti["k"] != "adt" or ti["crate"] != self.crate:
            return None
        suf = {"eq": " as std::cmp::PartialEq>::eq", "cmp": " as std::cmp::Ord>::cmp"}[what]
        for f in self.fns:
            if f.has and f.local and f.name.endswith(suf):
                n = f.name[1:-len(suf)].split("<")[0]
                if n == ti["name"] or n.split("::", 1)[-1] == ti["name"] or n.split("::", 1)[-1] == ti["name"].split("::", 1)[-1]:
                    if self.derived(f):
                        return None
                    return f
        return None

    def derived(self, f):
        p, _, l = f.d["span"].rpartition(":")
        try:
            import os
            from . import dump
            src = open(os.path.join(dump.REPO, p)).read().split("\n")[int(l) - 1]
        except (OSError, ValueError, IndexError):
            return False
        return "fn " not in src

    def any_custom(self):
        if self._anyc is None:
            self._anyc = any(f.has and f.local and f.name.endswith((" as std::cmp::PartialEq>::eq", " as std::cmp::Ord>::cmp")) and "value::" in f.name and not self.derived(f)
                             for f in self.fns)
        return self._anyc

    def is_floatord(self, tid):
        r = self._ford.get(tid)
        if r is None:
            ti = self.types[tid]
            r = self._ford[tid] = ti["k"] == "adt" and ti["name"].split("::")[-1].split("<")[0] == "FloatOrd"
        return r

    def adt(self, name):
        """type id of a (non-generic) ADT by path suffix"""
        c = [i for n, l in self.adt_by_name.items() for i in l if n == name or n.endswith("::" + name)]
        if len(c) != 1:
            c2 = [i for i in c if self.types[i]["crate"] == self.crate]
            if len(c2) == 1:
                return c2[0]
            raise KeyError("adt %s: %r" % (name, [self.types[i]["name"] for i in c]))
        return c[0]

    def variant(self, tid, name):
        for i, v in enumerate(self.types[tid]["v"]):
            if v["name"] == name:
                return i
        raise KeyError(name)

    def mk(self, tid, name, *f):
        v = self.variant(tid, name)
        assert len(f) == len(self.types[tid]["v"][v]["f"]), (name, f)
        return Agg(tid, v, list(f))

    def mks(self, tid, **kw):
        """struct by field names"""
        fs = self.types[tid]["v"][0]["f"]
        assert set(kw) == {n for n, _ in fs}, (sorted(kw), [n for n, _ in fs])
        return Agg(tid, 0, [kw[n] for n, _ in fs])

    def ftype(self, tid, var, field):
        for n, t in self.types[tid]["v"][var]["f"]:
            if n == field:
                return t
        raise KeyError(field)

    def get(self, agg, field):
        for i, (n, _) in enumerate(self.types[agg.ty]["v"][agg.var]["f"]):
            if n == field:
                return agg.f[i]
        raise KeyError(field)

    def variant_name(self, a):
        if a.ty is None:
            return "v%s" % a.var
        t = self.types[a.ty] if isinstance(a.ty, int) else None
        if t is None or t["k"] != "adt":
            return ""
        n = t["name"].split("::")[-1]
        if a.var is None:
            return n
        if t["kind"] == "Enum":
            return n + "::" + t["v"][a.var]["name"]
        return n

    def vname(self, a):
        t = self.types[a.ty]
        return t["v"][a.var]["name"]

    def discr_of(self, a):
        if a.ty is None:
            return a.var
        t = self.types[a.ty]
        if t["k"] != "adt" or t["kind"] != "Enum":
            return 0
        return t["v"][a.var]["discr"]

    def discr_var(self, ty, var):
        return self.types[ty]["v"][var]["discr"]

    def tname(self, t):
        ti = self.types[t]
        k = ti["k"]
        if k == "adt":
            return ti["name"]
        return k

    # ---- compile
    def ptype(self, fn, place):
        t = fn.d["locals"][place[0]]
        for p in place[1]:
            if t is None:
                return None
            ti = self.types[t]
            if p[0] == "*":
                if ti["k"] in ("ref", "ptr"):
                    t = ti["e"]
                elif ti["k"] == "adt" and ti["box"]:
                    t = ti["args"][0]
                else:
                    t = None
            elif p[0] == ".":
                t = p[2]
            elif p[0] in ("i", "ci"):
                t = ti.get("e")
            elif p[0] == "ss":
                pass
        return t

    def otype(self, fn, o):
        if o[0] in ("c", "m"):
            return self.ptype(fn, o[1])
        if o[0] == "k":
            return o[1]["ty"]
        return None

    def transparent(self, t):
        if t is None:
            return False
        ti = self.types[t]
        return ti["k"] == "adt" and ti["name"].split("::")[-1] in TRANSPARENT

    def simplify(self, fn, place):
        """drop projections through transparent wrappers"""
        out = []
        cur = [place[0], []]
        for p in place[1]:
            t = self.ptype(fn, [place[0], cur[1]])
            drop = p[0] == "." and self.transparent(t)
            if p[0] == "oc":
                drop = True
            cur[1] = cur[1] + [p]
            if not drop:
                out.append(p)
        return [place[0], out]

    def gread(self, fn, place):
        l, proj = self.simplify(fn, place)
        e = "F[%d]" % l
        for p in proj:
            e = self.gstep(e, p)
        return e

    def gstep(self, e, p):
        k = p[0]
        if k == "*":
            return "dr(%s)" % e
        if k == ".":
            return "fl(%s,%d)" % (e, p[1])
        if k == "v":
            return e
        if k == "i":
            return "ix(E,%s,F[%d])" % (e, p[1])
        if k == "ci":
            return "dr(cir(%s,%d,%r))" % (e, p[1], p[3])
        if k == "ss":
            return "ssr(%s,%d,%d,%r)" % (e, p[1], p[2], p[3])
        raise AssertionError(p)

    def gref(self, fn, place):
        l, proj = self.simplify(fn, place)
        proj = list(proj)
        while proj and proj[-1][0] == "v":
            proj.pop()
        if not proj:
            return "Ref(F,%d)" % l
        e = "F[%d]" % l
        for p in proj[:-1]:
            e = self.gstep(e, p)
        k = proj[-1]
        if k[0] == "*":
            return "rp(%s)" % e
        if k[0] == ".":
            return "rf(%s,%d)" % (e, k[1])
        if k[0] == "i":
            return "ixr(E,%s,F[%d])" % (e, k[1])
        if k[0] == "ci":
            return "cir(%s,%d,%r)" % (e, k[1], k[3])
        if k[0] == "ss":
            return "ssr(%s,%d,%d,%r)" % (e, k[1], k[2], k[3])

    def gwrite(self, fn, place, v):
        l, proj = self.simplify(fn, place)
        proj = list(proj)
        while proj and proj[-1][0] == "v":
            proj.pop()
        if not proj:
            return "F[%d]=%s" % (l, v)
        e = "F[%d]" % l
        for p in proj[:-1]:
            e = self.gstep(e, p)
        k = proj[-1]
        if k[0] == "*":
            return "wr(%s,%s)" % (e, v)
        if k[0] == ".":
            return "wf(%s,%d,%s)" % (e, k[1], v)
        if k[0] == "i":
            return "wr(ixr(E,%s,F[%d]),%s)" % (e, k[1], v)
        if k[0] == "ci":
            return "wr(cir(%s,%d,%r),%s)" % (e, k[1], k[3], v)
        raise AssertionError(place)

    def zst(self, ty):
        """python expression for the value of a zero-sized type"""
        ti = self.types[ty]
        if ti["k"] == "tuple":
            return "Agg(%d,0,[%s])" % (ty, ",".join(self.zst(t) for t in ti["f"]))
        if ti["k"] == "adt" and "v" in ti:
            if self.transparent(ty):
                return "None"
            vs = ti["v"]
            k = 0
            if ti.get("kind") == "Enum" and len(vs) > 1:
                live = [i for i, x in enumerate(vs) if not any(self.types[t[1]]["k"] == "never" for t in x["f"])]
                if len(live) == 1:
                    k = live[0]
            return "Agg(%d,%d,[%s])" % (ty, k, ",".join(self.zst(t[1]) for t in vs[k]["f"])) if vs else "Agg(%d,0,[])" % ty
        return "Agg(%d,0,[])" % ty

    def const(self, v, ty, K):
        """python expression for a constant (fresh for mutable ones)"""
        if "i" in v:
            if self.types[ty]["k"] == "bool":
                return "True" if v["i"] == "1" else "False"
            return "(%s)" % v["i"]
        if "f" in v and "adt" not in v:
            return "FV(bits=%s)" % v["f"]
        if "str" in v:
            return repr(v["str"])
        ti = self.types[ty]
        if "zst" in v:
            if ti["k"] == "fndef":
                K.append(FnV(ti["inst"], ti["name"], ty))
                return "K[%d]" % (len(K) - 1)
            return self.zst(ty)
        if "arr" in v:
            et = ti.get("e", ty)
            return "Agg(%s,0,[%s])" % (ty if ti["k"] == "array" else None, ",".join(self.const(x, et, K) for x in v["arr"]))
        if "tup" in v:
            return "Agg(%d,0,[%s])" % (ty, ",".join(self.const(x, t, K) for x, t in zip(v["tup"], ti["f"])))
        if "adt" in v:
            at = v["adt"]
            fts = self.types[at]["v"][v["var"]]["f"]
            fs = [self.const(x, t[1], K) for x, t in zip(v["f"], fts)]
            fs += [self.zst(t[1]) for t in fts[len(fs):]]
            return "Agg(%d,%d,[%s])" % (at, v["var"], ",".join(fs))
        if "ref" in v:
            et = ti.get("e")
            if ti["k"] in ("ref", "ptr") and self.types[et]["k"] == "slice":
                inner = v["ref"]["arr"]
                return "SliceRef([%s])" % ",".join(self.const(x, self.types[et]["e"], K) for x in inner)
            return "Ref([%s],0)" % self.const(v["ref"], et, K)
        if "static" in v:
            K.append(Obj("static", name=v["static"]))
            return "K[%d]" % (len(K) - 1)
        if "fn" in v:
            K.append(FnV(v["fn"], self.fns[v["fn"]].name if v["fn"] < len(self.fns) else "?"))
            return "K[%d]" % (len(K) - 1)
        if "ptr" in v:
            return "(%s)" % v["ptr"]
        K.append(Obj("unkconst", ty=ty, v=v))
        return "K[%d]" % (len(K) - 1)

    def gop(self, fn, o, K):
        if o[0] == "c":
            return "cp(%s)" % self.gread(fn, o[1])
        if o[0] == "m":
            return self.gread(fn, o[1])
        if o[0] == "k":
            return self.const(o[1]["v"], o[1]["ty"], K)
        return "False"

    def grv(self, fn, rv, K):
        k = rv[0]
        if k == "use":
            return self.gop(fn, rv[1], K)
        if k == "ref":
            return self.gref(fn, rv[2])
        if k == "addr":
            return self.gref(fn, rv[2])
        if k == "discr":
            return "E.discr(%s)" % self.gread(fn, rv[1])
        if k == "len":
            return "slen(E,%s)" % self.gread(fn, rv[1])
        if k in ("bin", "cbin"):
            t = self.otype(fn, rv[2])
            return "%sop(E,%r,%s,%s,T(%s))" % (k, rv[1], self.gop(fn, rv[2], K), self.gop(fn, rv[3], K), t)
        if k == "un":
            return "unop(E,%r,%s,T(%s))" % (rv[1], self.gop(fn, rv[2], K), self.otype(fn, rv[2]))
        if k == "cast":
            return "cast(E,%r,%s,T(%s),T(%s))" % (rv[1], self.gop(fn, rv[2], K), self.otype(fn, rv[2]), rv[3])
        if k == "rep":
            n = rv[2]
            return "rep(E,%s,%r)" % (self.gop(fn, rv[1], K), n)
        if k == "agg":
            ops = [self.gop(fn, o, K) for o in rv[2]]
            a = rv[1]
            if a[0] == "adt":
                if self.transparent(a[1]):
                    return ops[0] if ops else "None"
                return "Agg(%d,%d,[%s])" % (a[1], a[2], ",".join(ops))
            if a[0] == "closure":
                return "Agg(%d,0,[%s])" % (a[1], ",".join(ops))
            if a[0] == "tuple":
                return "Agg(None,0,[%s])" % ",".join(ops)
            if a[0] == "array":
                return "Agg(ARR,0,[%s])" % ",".join(ops)
            return "undec('aggregate %s')" % a[0]
        return "undec('rvalue %s')" % k

    def compile(self, fn):
        K = []
        out = []
        nb = len(fn.d["blocks"])
        reach = set()
        stack = [0]
        while stack:
            b = stack.pop()
            if b in reach:
                continue
            reach.add(b)
            t = fn.d["blocks"][b]["t"]
            if t[0] == "goto":
                stack.append(t[1])
            elif t[0] == "switch":
                stack += [x[1] for x in t[2]] + [t[3]]
            elif t[0] == "drop":
                stack.append(t[2])
            elif t[0] == "assert":
                stack.append(t[4])
            elif t[0] == "call" and t[1]["t"] is not None:
                stack.append(t[1]["t"])
        fn.reach = reach
        for b in range(nb):
            if b not in reach:
                continue
            blk = fn.d["blocks"][b]
            L = []
            for s in blk["s"]:
                if s[0] == "=":
                    L.append(self.gwrite(fn, s[1], self.grv(fn, s[2], K)))
                elif s[0] == "sd":
                    L.append("setd(E,%s,%d)" % (self.gread(fn, s[1]), s[2]))
                else:
                    L.append("undec('copy_nonoverlapping')")
            t = blk["t"]
            if t[0] == "goto":
                L.append("return %d" % t[1])
            elif t[0] == "switch":
                K.append([(int(v), x) for v, x in t[2]])
                L.append("return E.switch(%s,K[%d],%d)" % (self.gop(fn, t[1], K), len(K) - 1, t[3]))
            elif t[0] == "return":
                L.append("return -1")
            elif t[0] == "drop":
                L.append("return %d" % t[2])
            elif t[0] == "assert":
                L.append("c=%s" % self.gop(fn, t[1], K))
                L.append("if type(c) is not bool: undec('assert operand')")
                L.append("if c is not %r: raise Panic(%r, E.where())" % (t[2], "assert " + t[3]))
                L.append("return %d" % t[4])
            elif t[0] == "call":
                c = t[1]
                ci = CallInfo()
                ci.decl, ci.name, ci.inst, ci.ta, ci.site, ci.fn = c["decl"], c["name"], c["inst"], c["ta"], blk["sp"], fn
                ci.dest = self.ptype(fn, c["dest"])
                ci.argt = [self.otype(fn, a) for a in c["args"]]
                ci.defn = None
                args = "[%s]" % ",".join(self.gop(fn, a, K) for a in c["args"])
                K.append(ci)
                kc = "K[%d]" % (len(K) - 1)
                if c["decl"] is None:
                    L.append("r=E.call_value(%s,%s)" % (self.gop(fn, c["f"], K), args))
                else:
                    L.append("r=P.call(E,%s,%s)" % (kc, args))
                if c["t"] is None:
                    L.append("undec('diverging call returned')")
                else:
                    L.append(self.gwrite(fn, c["dest"], "r"))
                    L.append("return %d" % c["t"])
            elif t[0] == "unreachable":
                L.append("undec('unreachable block reached')")
            else:
                L.append("undec(%r)" % ("terminator " + t[0]))
            out.append("def b%d(E,F):\n  %s\n" % (b, "\n  ".join(L)))
        from . import ops
        g = {n: getattr(ops, n) for n in ("binop", "cbinop", "unop", "cast", "rep", "slen", "setd", "rp", "undec")}
        g.update(dict(Agg=Agg, Ref=Ref, SliceRef=SliceRef, FV=FV, K=K, P=self, cp=cp, dr=dr, fl=fl, rf=rf, ix=ix, ixr=ixr,
                      cir=cir, ssr=ssr, wr=wr, wf=wf, Panic=Panic, ARR=self.arr_ty(), T=self.T))
        src = "".join(out).replace("T(None)", "None")
        exec(compile(src, fn.name, "exec"), g)
        fn.code = [g.get("b%d" % b) for b in range(nb)]
        fn.nl = len(fn.d["locals"])
        fn.sp = [b["sp"] for b in fn.d["blocks"]]

    def arr_ty(self):
        if not hasattr(self, "_arr"):
            self._arr = next((i for i, t in enumerate(self.types) if t and t["k"] == "array"), None)
            if self._arr is None:
                self.types.append({"k": "array", "e": None, "n": None})
                self._arr = len(self.types) - 1
        return self._arr

    def T(self, t):
        return self.types[t]

    # ---- execution
    def run(self, E, fn, args):
        if fn.code is None:
            self.compile(fn)
        st = E.calls
        if len(st) > 2500:
            raise Diverge()
        F = [None] * fn.nl
        sp = fn.d["spread"]
        if sp is not None and len(args) > fn.d["argc"]:
            args = args[:sp - 1] + [Agg(None, 0, list(args[sp - 1:]))]
        if len(args) != fn.d["argc"]:
            raise Undecided("arity of %s: %d/%d" % (fn.name, len(args), fn.d["argc"]))
        F[1:1 + len(args)] = args
        fr = [fn, 0]
        st.append(fr)
        if fn.local:
            E.touched.add(fn.name)
            if E.rec is not None and len(E.rec) < 400:
                E.rec.append("%s%s (from %s)" % ("  " * (len(st) - 1), fn.name, E.where_caller()))
        code = fn.code
        bb = 0
        fuel = E.fuel
        while bb >= 0:
            E.fuel -= 1
            if E.fuel < 0:
                raise Diverge()
            fr[1] = bb
            bb = code[bb](E, F)
        st.pop()
        return F[0]

    def call(self, E, ci, args):
        fn = self.fns[ci.inst] if ci.inst is not None else None
        if ci.decl in CALLS:
            return E.call_value(args[0], list(args[1].f))
        if fn is not None and fn.local and fn.has:
            if fn.hook:
                for h in E.hooks:
                    r = h(E, fn, args)
                    if r is not NotImplemented:
                        return r
            return self.run(E, fn, args)
        m = self.models.get(ci.decl)
        if m is None and fn is not None:
            m = self.models.get(fn.defn) or self.models.get(fn.name)
        if m is not None:
            r = m(E, args, ci)
            if r is not NotImplemented:
                return r
        if fn is None:
            raise Undecided("unresolved call %s" % ci.decl)
        return self.fallback(E, fn, args)

    def fallback(self, E, fn, args):
        d = fn.defn
        for p in PANICS:
            if d.startswith(p):
                raise Panic(d, E.where())
        if fn.has:
            return self.run(E, fn, args)
        raise Undecided("unmodelled call %s" % fn.name)

    def call_inst(self, E, inst, args, fv=None):
        fn = self.fns[inst]
        if fn.local and fn.has:
            if fn.hook:
                for h in E.hooks:
                    r = h(E, fn, args)
                    if r is not NotImplemented:
                        return r
            return self.run(E, fn, args)
        ci = CallInfo()
        ci.decl, ci.name, ci.inst, ci.ta = (fv.name if fv else fn.defn), fn.name, inst, fn.d["args"]
        if fv is not None and fv.ty is not None:
            ci.ta = self.types[fv.ty]["args"]
        ci.dest, ci.site, ci.fn, ci.argt, ci.defn = None, None, fn, [None] * len(args), None
        m = self.models.get(ci.decl) or self.models.get(fn.defn) or self.models.get(fn.name)
        if m is not None:
            r = m(E, args, ci)
            if r is not NotImplemented:
                return r
        if self.is_ctor(fn):
            return self.ctor(fn, args)
        return self.fallback(E, fn, args)

    def is_ctor(self, fn):
        return fn.defn.split("::")[-1] in ("Some", "Ok", "Err", "Break", "Continue") and not fn.has

    def ctor(self, fn, args):
        n = fn.defn.split("::")[-1]
        return Agg(None, {"Some": 1, "Ok": 0, "Err": 1, "Break": 1, "Continue": 0}[n], list(args))

    def call_closure(self, E, inst, env, args):
        fn = self.fns[inst]
        if not fn.has:
            raise Undecided("closure without body")
        t1 = self.types[fn.d["locals"][1]]
        a0 = Ref([env], 0) if t1["k"] in ("ref", "ptr") else env
        sp = fn.d["spread"]
        return self.run(E, fn, [a0] + list(args))

    def method(self, trait_method, tyname_pred):
        """find local impl instance `<T as Trait>::m`"""
        for f in self.fns:
            if f.has and f.name.endswith(trait_method) and tyname_pred(f.name):
                return f
        return None


def where(E):
    for fn, bb in reversed(E.calls):
        if fn.local:
            return "%s in %s" % (fn.sp[bb], fn.name)
    if E.calls:
        fn, bb = E.calls[-1]
        return "%s in %s" % (fn.sp[bb], fn.name)
    return "?"


def where_caller(E):
    for fn, bb in reversed(E.calls[:-1]):
        if fn.local:
            return fn.sp[bb]
    return "analysis"


core.Engine.where = where
core.Engine.where_caller = where_caller


def mk_ordering(self, c):
    if not hasattr(self, "_ord"):
        self._ord = self.adt("cmp::Ordering")
    return Agg(self._ord, c + 1, [])


Prog.mk_ordering = mk_ordering
