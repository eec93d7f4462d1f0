"""Reference semantics of validation, over templates (see build.py).

Written from RFC 8610 and the crate's documentation as a purely functional
matcher: data positions are values, so "restoring" failed alternatives is
automatic.  It is evaluated inside the same abstract trace as the code under
analysis, so both see the same facts about opaque leaves and symbolic values;
facts the code did not consult are enumerated."""
from .core import SI, FV, SymStr, SymBytes, Undecided

LIMIT = 50


RANK = {"null": 0, "bool": 1, "int": 2, "float": 3, "bytes": 4, "t": 5, "arr": 6, "map": 7}


def order(d, rivals=True):
    """sort key of a known datum, in the documented order of data values; rivals:
    whether it is compared with data of its own kind"""
    k = RANK[d[0]]
    if d[0] == "null" or not rivals:
        return (k,)
    if d[0] == "arr":
        return (k, [order(x) for x in d[1]])
    if d[0] == "map":
        return (k, sorted([order(a), order(b)] for a, b in d[1]))
    x = d[1]
    if d[0] == "float" and x.bits is not None:
        import struct
        return (k, struct.unpack("<d", struct.pack("<Q", x.bits))[0])
    if d[0] == "bytes" and x.info and "rank" in x.info:
        return (k, x.info["rank"])
    if d[0] == "t" and isinstance(x, SymStr):
        if not x.info or "rank" not in x.info:
            raise Undecided("reference map order")
        x = x.info["rank"]
    if d[0] in ("float", "bytes") or isinstance(x, SI):
        raise Undecided("reference map order")
    return (k, x)


class Mis(Exception):
    pass


class Cut(Exception):
    pass


class Fatal(Exception):
    def __init__(self, kind, payload=None):
        Exception.__init__(self, kind, payload)
        self.kind, self.payload = kind, payload


class Ctx:
    __slots__ = ("bind", "past", "depth")

    def __init__(self, bind=None, past=None, depth=0):
        self.bind, self.past, self.depth = bind or {}, past, depth


class Ref:
    def __init__(self, E, env, cbor_feature=True):
        self.E, self.env, self.cbor_feature = E, env, cbor_feature

    # ---------------------------------------------------------------- rules
    def deeper(self, ctx):
        if ctx.depth >= LIMIT:
            raise Fatal("Structural")
        return ctx.depth + 1

    def lookup(self, r, ctx):
        name, args = r[1], r[2:]
        if name in ctx.bind:
            p = ctx.past
            return ctx.bind[name], Ctx(p.bind, p.past, self.deeper(ctx))
        if name not in self.env:
            raise Fatal("MissingRule", name)
        parms, node = self.env[name]
        if len(parms) != len(args):
            raise Fatal("GenericError")
        return node, Ctx(dict(zip(parms, args)), ctx, self.deeper(ctx))

    # ---------------------------------------------------------------- types
    def val(self, v, n, ctx):
        k = n[0]
        if k == "re":
            if v[0] != "t":
                raise Mis()
            if self.E.fact(("re", "re%s" % (n[1],), self.skey(v))) != 0:
                raise Mis()
        elif k == "lit":
            if not self.lit_eq(v, n[1]):
                raise Mis()
        elif k == "prel":
            if not self.prel(v, n[1]):
                raise Mis()
        elif k == "rule":
            node, c = self.lookup(n, ctx)
            self.val(v, node, c)
        elif k == "choice":
            self.first(n[1], lambda o: self.val(v, o, ctx))
        elif k == "arr":
            if v[0] != "arr":
                raise Mis()
            if self.amembers(n[1], v[1], 0, ctx) != len(v[1]):
                raise Mis()
        elif k == "map":
            if v[0] != "map":
                raise Mis()
            rest = self.morder(v[1])
            try:
                rest = self.mmembers(n[1], rest, ctx)
            except Cut:
                raise Mis()
            if rest:
                raise Mis()
        elif k == "grp":
            if len(n[1]) != 1:
                raise Fatal("Structural")
            self.val(v, n[1][0], ctx)
        elif k in ("kv", "occ", "unwrap"):
            raise Fatal("Structural")
        elif k == "cfy":
            self.cfy(v, n, ctx)
        elif k == "cfyi":
            self.cfy_members(v, n[1], ctx)
        elif k == "range":
            self.range(v, n, ctx)
        elif k == "ctl":
            getattr(self, "ctl_" + n[1])(v, n, ctx)
        else:
            raise KeyError(k)

    def first(self, opts, f):
        """ordered choice: first success; only plain mismatch moves on"""
        for o in opts:
            try:
                return f(o)
            except Mis:
                pass
        raise Mis()

    def cfy(self, v, n, ctx):
        node, c = self.lookup(n, ctx)
        if node[0] == "grp":
            self.cfy_members(v, node[1], c)
        elif node[0] == "rule":
            self.cfy(v, node, c)
        else:
            raise Fatal("Structural")

    def cfy_members(self, v, items, ctx):
        def one(o):
            if o[0] == "kv":
                self.val(v, o[2], ctx)
            elif o[0] == "rule":
                self.cfy(v, o, ctx)
            else:
                self.val(v, o, ctx)
        self.first(items, one)

    # ---------------------------------------------------------------- arrays
    def amembers(self, ms, d, pos, ctx):
        for m in ms:
            pos = self.amem(m, d, pos, ctx)
        return pos

    def amem(self, m, d, pos, ctx):
        k = m[0]
        if k == "occ":
            return self.occur(m, pos, lambda p: self.amem(m[2], d, p, ctx))
        if k == "kv":
            return self.aval(m[2], d, pos, ctx)
        if k == "rule":
            node, c = self.lookup(m, ctx)
            return self.amem(node, d, pos, c)
        if k == "unwrap":
            node, c = self.lookup(m, ctx)
            if node[0] != "arr":
                raise Mis()
            return self.amembers(node[1], d, pos, c)
        if k == "choice":
            return self.first(m[1], lambda o: self.amem(o, d, pos, ctx))
        if k == "grp":
            return self.amembers(m[1], d, pos, ctx)
        return self.aval(m, d, pos, ctx)

    def aval(self, n, d, pos, ctx):
        if pos >= len(d):
            raise Mis()
        self.val(d[pos], n, ctx)
        return pos + 1

    def limits(self, o):
        if o[0] == "?":
            return 0, 1
        if o[0] == "*":
            return 0, None
        if o[0] == "+":
            return 1, None
        return o[1], o[2]

    def lt(self, a, b):
        """a < b for limits (ints or zone values)"""
        return self.E.le(a, b, -1)

    def occur(self, m, pos, step):
        lo, hi = self.limits(m[1])
        n = 0
        while hi is None or self.lt(n, hi):
            try:
                p2 = step(pos)
            except Mis:
                break
            n += 1
            if p2 == pos:
                # matched without using data: any further repetition would too
                return pos if hi is None or not self.lt(hi, lo) else self.mis()
            pos = p2
        if self.lt(n, lo):
            raise Mis()
        return pos

    def mis(self):
        raise Mis()

    # ---------------------------------------------------------------- maps
    def morder(self, entries):
        return tuple(sorted(entries, key=lambda e: order(e[0], sum(1 for x in entries if x[0][0] == e[0][0]) > 1)))

    def mmembers(self, ms, rest, ctx):
        for m in ms:
            rest = self.mmem(m, rest, ctx)
        return rest

    def mmem(self, m, rest, ctx):
        k = m[0]
        if k == "occ":
            return self.occur(m, rest, lambda r: self.mmem(m[2], r, ctx))
        if k == "kv":
            return self.mkv(m, rest, ctx)
        if k == "rule":
            node, c = self.lookup(m, ctx)
            return self.mmem(node, rest, c)
        if k == "unwrap":
            node, c = self.lookup(m, ctx)
            if node[0] != "map":
                raise Mis()
            return self.mmembers(node[1], rest, c)
        if k == "grp":
            try:
                return self.mmembers(m[1], rest, ctx)
            except Cut:
                raise Mis()
        if k in ("choice", "cfyi"):
            return self.first(m[1], lambda o: self.mmem(o, rest, ctx))
        if k == "cfy":
            return self.mcfy(m, rest, ctx)
        raise Fatal("Structural")

    def mcfy(self, m, rest, ctx):
        node, c = self.lookup(m, ctx)
        if node[0] == "grp":
            def one(o):
                if o[0] == "kv":
                    return self.mmem(o[2], rest, c)
                if o[0] == "rule":
                    return self.mcfy(o, rest, c)
                return self.mmem(o, rest, c)
            return self.first(node[1], one)
        if node[0] == "rule":
            return self.mcfy(node, rest, c)
        raise Fatal("Structural")

    def mkv(self, m, rest, ctx):
        _, key, value, cut = m
        hit = None
        for e in rest:
            if key[0] == "lit":
                if self.lit_eq(e[0], key[1]):
                    hit = e
                    break
            else:
                try:
                    self.val(e[0], key, ctx)
                except Mis:
                    continue
                hit = e
                break
        if hit is None:
            raise Mis()
        try:
            self.val(hit[1], value, ctx)
        except Mis:
            if cut:
                raise Cut()
            raise
        return tuple(x for x in rest if x is not hit)

    # ---------------------------------------------------------------- leaves
    def skey(self, v):
        from .build import txt
        return self.E.rep(txt(v[1]))

    def lit_eq(self, v, x):
        from .build import txt
        if isinstance(x, (str, SymStr)):
            return v[0] == "t" and self.E.streq(txt(v[1]), x)
        if isinstance(x, bool):
            return v[0] == "bool" and v[1] == x
        if isinstance(x, (int, SI)):
            return v[0] == "int" and self.E.ieq(v[1], x)
        if isinstance(x, FV):
            return v[0] == "float" and self.E.frel("Eq", v[1], x)
        if isinstance(x, SymBytes):
            return v[0] == "bytes" and (v[1].id == x.id or self.E.streq(v[1], x))
        raise KeyError(x)

    def prel(self, v, p):
        if p == "Any":
            return True
        if p == "Nil":
            return v[0] == "null"
        if p == "Bool":
            return v[0] == "bool"
        if p == "Float":
            return v[0] == "float"
        if p == "Tstr":
            return v[0] == "t"
        if p == "Bstr":
            return v[0] == "bytes"
        if v[0] != "int":
            return False
        if p == "Int":
            return True
        nonneg = self.E.le(0, v[1])
        return nonneg if p == "Uint" else not nonneg

    def kind(self, x):
        if isinstance(x, (str, SymStr)):
            return "t"
        if isinstance(x, bool):
            return "bool"
        if isinstance(x, (int, SI)):
            return "int"
        if isinstance(x, FV):
            return "float"
        return "bytes"

    def chase(self, n, ctx, ok):
        while n[0] == "rule":
            n, ctx = self.lookup(n, ctx)
        if not ok(n):
            raise Fatal("Structural")
        return n

    def range(self, v, n, ctx):
        a = self.chase(n[1], ctx, lambda x: x[0] == "lit")[1]
        b = self.chase(n[2], ctx, lambda x: x[0] == "lit")[1]
        ka, kb = self.kind(a), self.kind(b)
        if ka != kb or ka not in ("int", "float"):
            if ka == kb or ka not in ("int", "float") or kb not in ("int", "float"):
                raise Fatal("Structural*")      # text/bool/bytes endpoints: code may also call it a mismatch
            raise Fatal("Structural")
        if v[0] != ka:
            raise Mis()
        if ka == "int":
            if not self.E.le(a, v[1]):
                raise Mis()
            if not self.E.le(v[1], b, 0 if n[3] else -1):
                raise Mis()
        else:
            if not self.E.frel("Le", a, v[1]):
                raise Mis()
            if not self.E.frel("Le" if n[3] else "Lt", v[1], b):
                raise Mis()

    def ctl_size(self, v, n, ctx):
        sz = self.chase(n[3], ctx, lambda x: x[0] == "lit" and self.kind(x[1]) == "int" or x[0] == "range")
        E = self.E
        if sz[0] == "lit":
            lo = hi = sz[1]
            incl, exact = True, True
        else:
            if any(x[0] != "lit" or self.kind(x[1]) != "int" for x in sz[1:3]):
                raise Fatal("Structural")
            lo, hi, incl, exact = sz[1][1], sz[2][1], sz[3], False
        if not E.le(0, lo) or not E.le(0, hi):
            raise Fatal("Structural")
        if not E.le(lo, (1 << 64) - 1) or not E.le(hi, (1 << 64) - 1):
            raise Fatal("Structural")
        tg = self.chase(n[2], ctx, lambda x: x[0] == "prel" and x[1] in ("Uint", "Tstr", "Bstr"))[1]
        if not E.le(lo, hi, 0 if incl else -1):
            raise Mis()
        if tg == "Uint":
            if v[0] != "int" or not E.le(0, v[1]):
                raise Mis()
            x = v[1]
            if exact or E.ieq(lo, hi):
                if E.le(16, lo):
                    return
                m = E.concretize(lo)
                if not E.le(x, 256 ** m - 1):
                    raise Mis()
                return
            # bytes needed
            for need in range(0, 17):
                if need == 16 or E.le(x, 256 ** need - 1):
                    break
            if not E.le(lo, need) or not E.le(need, hi, 0 if incl else -1):
                raise Mis()
            return
        if v[0] != ("t" if tg == "Tstr" else "bytes"):
            raise Mis()
        from .build import txt
        ln = E.strlen(txt(v[1]) if tg == "Tstr" else v[1])
        if not E.le(lo, ln) or not E.le(ln, hi, 0 if incl else -1):
            raise Mis()

    def cmpctl(self, v, n, ctx, f):
        b = self.chase(n[3], ctx, lambda x: x[0] == "lit" and self.kind(x[1]) == "int")[1]
        tg = self.chase(n[2], ctx, lambda x: x[0] == "prel" and x[1] in ("Int", "Uint", "Nint"))[1]
        if not self.prel(v, tg) or not f(v[1], b):
            raise Mis()

    def ctl_lt(self, v, n, ctx):
        self.cmpctl(v, n, ctx, lambda x, b: self.E.le(x, b, -1))

    def ctl_le(self, v, n, ctx):
        self.cmpctl(v, n, ctx, lambda x, b: self.E.le(x, b))

    def ctl_gt(self, v, n, ctx):
        self.cmpctl(v, n, ctx, lambda x, b: self.E.le(b, x, -1))

    def ctl_ge(self, v, n, ctx):
        self.cmpctl(v, n, ctx, lambda x, b: self.E.le(b, x))

    def ctl_cbor(self, v, n, ctx):
        if not self.cbor_feature:
            raise Fatal("Unsupported")
        if v[0] != "bytes":
            raise Mis()
        b = v[1]
        from .ext import cbor_outcome
        o = cbor_outcome(self.E, b)
        if o != 0:
            raise Mis()
        d = b.info["tmpl"]
        self.representable(d)
        self.val(d, n[3], ctx)

    def representable(self, d):
        if d[0] == "tag":
            raise Fatal("ValueError")
        if d[0] == "arr":
            for x in d[1]:
                self.representable(x)
        if d[0] == "map":
            for a, b in d[1]:
                self.representable(a)
                self.representable(b)


def verdict(f):
    try:
        f()
        return ("ok",)
    except Mis:
        return ("mismatch",)
    except Cut:
        return ("mismatch",)
    except Fatal as e:
        return ("fatal", e.kind, e.payload)
