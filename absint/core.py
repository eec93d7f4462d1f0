"""Abstract-interpretation engine over the monomorphic MIR dump.

Domain: enum values are known-variant aggregates or lazily refined variant
sets; integers, string lengths and float ordinals are zone (difference-bound)
elements; strings, byte strings and keys are symbols with equality facts;
references are (cell, key) pairs.  Joins are never taken: states are
partitioned by the trace of unresolved abstract branches ("trace
partitioning"), and every partition of an obligation is enumerated.
"""
import sys

sys.setrecursionlimit(1000000)


class Undecided(Exception):
    """The analysis met something it does not model: no verdict on this path."""


class Infeasible(Exception):
    pass


class Panic(Exception):
    def __init__(self, kind, site):
        Exception.__init__(self, kind, site)
        self.kind, self.site = kind, site


class Diverge(Exception):
    pass


# ----------------------------------------------------------------- values
class Agg:
    """struct / enum / tuple / array / closure value.  var None: unrefined."""
    __slots__ = ("ty", "var", "f", "sym")

    def __init__(self, ty, var, f, sym=None):
        self.ty, self.var, self.f, self.sym = ty, var, f, sym

    def __repr__(self):
        return show(self)


class BoxV:
    __slots__ = ("f",)

    def __init__(self, v):
        self.f = [v]

    def __repr__(self):
        return "Box(%r)" % (self.f[0],)


class RcV:
    """Rc / Arc / Box<dyn>: shared immutable cell."""
    __slots__ = ("f",)

    def __init__(self, v):
        self.f = [v]


class Ref:
    __slots__ = ("b", "k")

    def __init__(self, b, k):
        self.b, self.k = b, k

    def __repr__(self):
        try:
            return "&%r" % (self.b[self.k],)
        except Exception:
            return "&?"


class SliceRef:
    """&[T] / &mut [T] over a python list."""
    __slots__ = ("l", "a", "n")

    def __init__(self, l, a=0, n=None):
        self.l, self.a = l, a
        self.n = len(l) - a if n is None else n

    def items(self):
        return self.l[self.a:self.a + self.n]

    def __repr__(self):
        return "&%r" % (self.items(),)


class StringV:
    """Owned String: .v is a python str or SymStr."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "String(%r)" % (self.v,)


class SymStr:
    """Opaque text (also used as the &str pointer to it)."""
    __slots__ = ("id", "info")

    def __init__(self, id, info=None):
        self.id, self.info = id, info

    def __repr__(self):
        return "<str %s>" % (self.id,)


class SymBytes:
    """Opaque byte sequence; as a value it is both the content and &[u8]."""
    __slots__ = ("id", "info")

    def __init__(self, id, info=None):
        self.id, self.info = id, info

    def __repr__(self):
        return "<bytes %s>" % (self.id,)


class VecV:
    __slots__ = ("l",)

    def __init__(self, l):
        self.l = l          # python list or SymBytes

    def __repr__(self):
        return "Vec%r" % (self.l,)


class MapV:
    """BTreeMap (ordered) or HashMap: list of [key, value] cells."""
    __slots__ = ("e", "ordered")

    def __init__(self, e, ordered):
        self.e, self.ordered = e, ordered

    def __repr__(self):
        return "Map%r" % (self.e,)


class SI:
    """zone variable + constant"""
    __slots__ = ("v", "o")

    def __init__(self, v, o=0):
        self.v, self.o = v, o

    def __repr__(self):
        return "i%d%+d" % (self.v, self.o) if self.o else "i%d" % self.v


class FV:
    """float: known bits (int) or symbolic ordinal"""
    __slots__ = ("bits", "v", "id")

    def __init__(self, bits=None, v=None, id=None):
        self.bits, self.v, self.id = bits, v, id

    def __repr__(self):
        return "f<%s>" % (self.id if self.bits is None else self.bits,)


class FnV:
    __slots__ = ("inst", "name", "ty")

    def __init__(self, inst, name, ty=None):
        self.inst, self.name, self.ty = inst, name, ty

    def __repr__(self):
        return "fn %s" % self.name


class PyFn:
    """callable implemented by the analyser"""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name=""):
        self.fn, self.name = fn, name


class Obj:
    """opaque model object with a kind tag"""
    __slots__ = ("kind", "d")

    def __init__(self, kind, **d):
        self.kind, self.d = kind, d

    def __repr__(self):
        return "<%s %s>" % (self.kind, {k: v for k, v in self.d.items()})


class IterV:
    """iterator: nxt(E) -> value or STOP;  back optional"""
    __slots__ = ("nxt", "back", "rem")

    def __init__(self, nxt, back=None, rem=None):
        self.nxt, self.back, self.rem = nxt, back, rem


class Discr:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a


STOP = object()
UNIT = Agg(None, 0, [])


def unit():
    return Agg(None, 0, [])


def tup(*a):
    return Agg(None, 0, list(a))


def some(v):
    return Agg(None, 1, [v])


def none():
    return Agg(None, 0, [])


def ok(v):
    return Agg(None, 0, [v])


def err(v):
    return Agg(None, 1, [v])


def opt(v):
    return none() if v is STOP else some(v)


def show(v, d=0):
    if isinstance(v, Agg):
        nm = PROG.variant_name(v) if PROG else "?"
        if v.var is None:
            return "<%s %s>" % (nm, v.sym)
        return "%s(%s)" % (nm, ", ".join(show(x, d + 1) if d < 12 else ".." for x in v.f))
    return repr(v)


PROG = None


# ----------------------------------------------------------------- zone
class Zone:
    """difference-bound matrix over integer ordinals; index 0 is zero"""

    def __init__(self):
        self.n = 1
        self.m = [[0]]
        self.ne = []

    def var(self, lo=None, hi=None):
        i = self.n
        self.n += 1
        for r in self.m:
            r.append(None)
        self.m.append([None] * i + [0])
        if lo is not None:
            self.add(0, i, -lo)
        if hi is not None:
            self.add(i, 0, hi)
        return i

    def entails(self, x, y, c):
        """x - y <= c ?"""
        b = self.m[x][y]
        return b is not None and b <= c

    def excludes(self, x, y, c):
        """x - y <= c impossible ?"""
        b = self.m[y][x]
        return b is not None and b < -c

    def add(self, x, y, c):
        """assume x - y <= c; False if infeasible"""
        m = self.m
        b = m[x][y]
        if b is not None and b <= c:
            return True
        r = m[y][x]
        if r is not None and r + c < 0:
            return False
        n = self.n
        for i in range(n):
            ix = m[i][x]
            if ix is None:
                continue
            row = m[i]
            my = m[y]
            for j in range(n):
                yj = my[j]
                if yj is None:
                    continue
                s = ix + c + yj
                o = row[j]
                if o is None or s < o:
                    row[j] = s
        return self.check_ne()

    def check_ne(self):
        for (x, y, c) in self.ne:
            # x - y != c
            hi, lo = self.m[x][y], self.m[y][x]
            if hi == c and lo is not None and -lo == c:
                return False
            if hi == c:
                return self.add(x, y, c - 1)
            if lo is not None and -lo == c:
                return self.add(y, x, -c - 1)
        return True

    def add_ne(self, x, y, c):
        self.ne.append((x, y, c))
        return self.check_ne()


# ----------------------------------------------------------------- engine
class Engine:
    """One abstract trace.  Unresolved branches are partitioned by `choose`."""

    def __init__(self, prog, prefix=(), fuel=400000):
        self.p = prog
        self.prefix = list(prefix)
        self.trace = []      # (choice, arity, label)
        self.z = Zone()
        self.fuel = fuel
        self.fuel0 = fuel
        self.ids = {}
        self.facts = {}      # generic fact table
        self.imprecise = None
        self.calls = []      # python-side call stack of function names
        self.depth = 0
        self.hooks = prog.hooks
        self.envs = {}
        self.lens = {}
        self.ford = {}
        self.seq = {}        # string equality classes
        self.sne = set()
        self.notes = []
        self.touched = set()
        self.sorder = {}
        self.rec = None
        self.negof = {}      # variable -> the variable it is the negation of

    # -- partitioning
    def choose(self, n, label=""):
        if n == 1:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = 0
        self.trace.append((c, n, label))
        return c

    def undecided(self, why):
        raise Undecided(why)

    def fresh(self, base):
        k = self.ids.get(base, 0)
        self.ids[base] = k + 1
        return "%s#%d" % (base, k)

    # -- ints
    def int_var(self, lo=None, hi=None):
        return SI(self.z.var(lo, hi))

    def vo(self, a):
        if type(a) is SI:
            return a.v, a.o
        return 0, int(a)

    def le(self, a, b, k=0, label=None):
        """decide a <= b + k, partitioning if open"""
        x, ox = self.vo(a)
        y, oy = self.vo(b)
        c = oy - ox + k
        if x == y:
            return 0 <= c
        if self.negof:
            p, q = self.negof.get(x), self.negof.get(y)
            if p is not None and q is not None:
                return self.le(SI(q), SI(p), c)
            if p is not None and y == 0:
                return self.le(0, SI(p), c)
            if q is not None and x == 0:
                return self.le(SI(q), 0, c)
        if self.z.entails(x, y, c):
            return True
        if self.z.excludes(x, y, c):
            return False
        if self.choose(2, label or "le") == 0:
            if not self.z.add(x, y, c):
                raise Infeasible()
            return True
        if not self.z.add(y, x, -c - 1):
            raise Infeasible()
        return False

    def ieq(self, a, b):
        x, ox = self.vo(a)
        y, oy = self.vo(b)
        c = oy - ox
        if x == y:
            return c == 0
        if self.negof:
            p, q = self.negof.get(x), self.negof.get(y)
            if p is not None and q is not None:
                return self.ieq(SI(q), SI(p, c))
            if p is not None and y == 0:
                return self.ieq(SI(p), -c)
            if q is not None and x == 0:
                return self.ieq(SI(q), c)
        if self.z.excludes(x, y, c) or self.z.excludes(y, x, -c):
            return False
        if self.z.entails(x, y, c) and self.z.entails(y, x, -c):
            return True
        if (x, y, c) in self.z.ne or (y, x, -c) in self.z.ne:
            return False
        if self.choose(2, "eq") == 0:
            if not (self.z.add(x, y, c) and self.z.add(y, x, -c)):
                raise Infeasible()
            return True
        if not self.z.add_ne(x, y, c):
            raise Infeasible()
        return False

    def bounds(self, a):
        if type(a) is not SI:
            return a, a
        if a.v in self.negof:
            lo, hi = self.bounds(SI(self.negof[a.v]))
            return (None if hi is None else a.o - hi), (None if lo is None else a.o - lo)
        hi = self.z.m[a.v][0]
        lo = self.z.m[0][a.v]
        return (None if lo is None else -lo + a.o), (None if hi is None else hi + a.o)

    def conc(self, a):
        """known integer value or None"""
        if type(a) is not SI:
            return a
        lo, hi = self.bounds(a)
        if lo is not None and lo == hi:
            return lo
        return None

    def concretize(self, a, limit=300, why="concretize"):
        c = self.conc(a)
        if c is not None:
            return c
        lo, hi = self.bounds(a)
        if lo is None or hi is None or hi - lo > limit:
            raise Undecided("unbounded " + why)
        n = self.choose(hi - lo + 1, why)
        v = lo + n
        if not self.ieq_assume(a, v):
            raise Infeasible()
        return v

    def le_assume(self, a, b):
        """a <= b, assumed; False when impossible"""
        x, ox = self.vo(a)
        y, oy = self.vo(b)
        return self.z.add(x, y, oy - ox)

    def ieq_assume(self, a, b):
        x, ox = self.vo(a)
        y, oy = self.vo(b)
        c = oy - ox
        return self.z.add(x, y, c) and self.z.add(y, x, -c)

    # -- floats: relation facts on ordinals; NaN only where declared
    def ford_of(self, f):
        if f.bits is None:
            return f.v
        k = ("f", f.bits)
        if k not in self.ford:
            v = self.z.var()
            import struct
            val = struct.unpack("<d", struct.pack("<Q", f.bits))[0]
            for (kk, w) in list(self.ford.items()):
                ov = struct.unpack("<d", struct.pack("<Q", kk[1]))[0]
                if ov < val:
                    self.z.add(w, v, -1)
                elif val < ov:
                    self.z.add(v, w, -1)
                elif val == ov:
                    self.z.add(w, v, 0)
                    self.z.add(v, w, 0)
            self.ford[k] = v
        return self.ford[k]

    def is_nan(self, f):
        if f.bits is not None:
            e = (f.bits >> 52) & 0x7ff
            return e == 0x7ff and (f.bits & ((1 << 52) - 1)) != 0
        return bool(self.facts.get(("nan", f.id), False))

    def frel(self, op, a, b):
        if type(a) is not FV or type(b) is not FV:
            raise Undecided("float operands")
        if self.is_nan(a) or self.is_nan(b):
            return op == "Ne"
        x, y = SI(self.ford_of(a)), SI(self.ford_of(b))
        if op == "Eq":
            return self.ieq(x, y)
        if op == "Ne":
            return not self.ieq(x, y)
        if op == "Lt":
            return self.le(x, y, -1)
        if op == "Le":
            return self.le(x, y)
        if op == "Gt":
            return self.le(y, x, -1)
        if op == "Ge":
            return self.le(y, x)
        raise Undecided("float op " + op)

    def fneg(self, f):
        """sign bit"""
        if f.bits is not None:
            return bool(f.bits >> 63)
        return self.fact(("sign", f.id)) == 1

    def ftotal(self, a, b):
        """total order on doubles: IEEE order, -0 < +0, NaN outside"""
        if type(a) is not FV or type(b) is not FV:
            raise Undecided("float order")
        if a is b or (a.id is not None and a.id == b.id) or (a.bits is not None and a.bits == b.bits):
            return 0
        na, nb = self.is_nan(a), self.is_nan(b)
        if na or nb:
            if na and nb:
                x, y = self.fneg(a), self.fneg(b)
                if x != y:
                    return -1 if x else 1
                return self.fact(("nanpayload", a.bits or a.id, b.bits or b.id), 3) - 1
            if na:
                return -1 if self.fneg(a) else 1
            return 1 if self.fneg(b) else -1
        x, y = SI(self.ford_of(a)), SI(self.ford_of(b))
        if self.le(x, y, -1):
            return -1
        if not self.le(x, y):
            return 1
        z = FV(bits=0)
        if not self.frel("Eq", a, z):
            return 0
        if a.bits is None or b.bits is None:
            self.imprecise = "signed zeros"
        s, t = self.fneg(a), self.fneg(b)
        return 0 if s == t else -1 if s else 1

    # -- generic boolean facts
    def fact(self, key, n=2, label=None):
        if key not in self.facts:
            self.facts[key] = self.choose(n, label or str(key))
        return self.facts[key]

    # -- strings
    def rep(self, s):
        """representative: python str or symbol id tuple"""
        if isinstance(s, str):
            return s
        k = ("s", s.id) if type(s) is SymStr else ("b", s.id)
        while k in self.seq:
            k = self.seq[k]
            if isinstance(k, (str, bytes)):
                break
        return k

    def streq(self, a, b):
        x, y = self.rep(a), self.rep(b)
        if x == y:
            return True
        if isinstance(x, (str, bytes)) and isinstance(y, (str, bytes)):
            return False
        if (x, y) in self.sne or (y, x) in self.sne:
            return False
        ra, rb = self.rank(a), self.rank(b)
        if ra is not None and rb is not None:
            return ra == rb
        if self.sorder and (self.sless(x, y) or self.sless(y, x)):
            return False
        if self.choose(2, "streq %s %s" % (x, y)) == 0:
            self.unify(x, y)
            return True
        self.sne.add((x, y))
        return False

    def unify(self, x, y):
        if isinstance(x, (str, bytes)):
            x, y = y, x
        # diseq transfer
        for (p, q) in list(self.sne):
            if p == x:
                self.sne.add((y, q))
            elif q == x:
                self.sne.add((p, y))
        self.seq[x] = y
        lx, ly = self.lens.get(x), self.lens.get(y)
        if lx is not None and not isinstance(y, (str, bytes)):
            if ly is None:
                self.lens[y] = lx
            elif not self.ieq_assume(lx, ly):
                raise Infeasible()
        if isinstance(y, (str, bytes)):
            n = len(y.encode()) if isinstance(y, str) else len(y)
            if lx is not None and not self.ieq_assume(lx, n):
                raise Infeasible()
            for (p, q) in self.sne:
                if p == q:
                    raise Infeasible()
        for (p, q) in self.sne:
            if self.crep(p) == self.crep(q):
                raise Infeasible()
        if self.sorder:
            for p in {self.crep(k) for e in self.sorder for k in e}:
                if self.sless(p, p):
                    raise Infeasible()

    def rank(self, s):
        info = getattr(s, "info", None)
        if isinstance(info, dict):
            return info.get("rank")
        return None

    def strlen(self, s):
        k = self.rep(s)
        if isinstance(k, str):
            return len(k.encode())
        if isinstance(k, bytes):
            return len(k)
        if k not in self.lens:
            info = getattr(s, "info", None) or {}
            self.lens[k] = self.int_var(info.get("minlen", 0), (1 << 63) - 1)
        return self.lens[k]

    def strcmp(self, a, b):
        """-1/0/1"""
        if self.streq(a, b):
            return 0
        x, y = self.rep(a), self.rep(b)
        if isinstance(x, str) and isinstance(y, str):
            return -1 if x.encode() < y.encode() else 1
        ra, rb = self.rank(a), self.rank(b)
        if ra is not None and rb is not None:
            return -1 if ra < rb else 1
        if self.sless(x, y):
            return -1
        if self.sless(y, x):
            return 1
        r = -1 if self.choose(2, "strcmp") == 0 else 1
        self.sorder[(x, y) if r < 0 else (y, x)] = True
        self.sne.add((x, y))
        return r

    def crep(self, k):
        while not isinstance(k, (str, bytes)) and k in self.seq:
            k = self.seq[k]
        return k

    def sless(self, x, y):
        """is x < y implied by the order facts (transitively)?"""
        if not self.sorder:
            return False
        adj = {}
        lits = set()
        for (p, q) in self.sorder:
            p, q = self.crep(p), self.crep(q)
            adj.setdefault(p, set()).add(q)
            lits |= {z for z in (p, q) if isinstance(z, (str, bytes))}
        lits |= {z for z in (x, y) if isinstance(z, (str, bytes))}
        seen, todo = set(), [x]
        while todo:
            u = todo.pop()
            nx = set(adj.get(u, ()))
            if isinstance(u, (str, bytes)):
                ub = u.encode() if isinstance(u, str) else u
                nx |= {z for z in lits if (z.encode() if isinstance(z, str) else z) > ub}
            if y in nx:
                return True
            for z in nx:
                if z not in seen:
                    seen.add(z)
                    todo.append(z)
        return False

    # -- aggregates
    def tyinfo(self, t):
        return self.p.types[t]

    def refine(self, a, var):
        """materialise a lazily refined enum as variant `var`"""
        t = self.p.types[a.ty]
        s = a.sym
        a.var = var
        fs = []
        for (nm, ft) in t["v"][var]["f"]:
            fs.append(self.symval(ft, "%s.%s.%s" % (s.id, t["v"][var]["name"], nm), s))
        a.f = fs
        if s.on_refine:
            s.on_refine(self, a)

    def force(self, a):
        if a.var is None:
            al = a.sym.allow
            i = self.choose(len(al), "kind of %s" % a.sym.id)
            if a.sym.opaque:
                if len(al) > 1:
                    a.sym.allow = [al[i]]
                self.touch_opaque(a)
            self.refine(a, al[i])
        return a

    def touch_opaque(self, a):
        raise Undecided("content of opaque %s inspected" % a.sym.id)

    def symval(self, t, sid, parent=None):
        """fresh unconstrained value of a type"""
        ti = self.p.types[t]
        k = ti["k"]
        if k == "bool":
            return bool(self.choose(2, sid) == 0)
        if k == "uint":
            return self.int_var(0, (1 << ti["bits"]) - 1)
        if k == "int":
            b = ti["bits"]
            return self.int_var(-(1 << (b - 1)), (1 << (b - 1)) - 1)
        if k == "char":
            return self.int_var(0, 0x10ffff)
        if k == "float":
            return FV(v=self.z.var(), id=sid)
        if k == "adt":
            n = ti["name"]
            short = n.split("::")[-1]
            if short == "String":
                return StringV(SymStr(sid))
            if short == "Box" or ti["box"]:
                return BoxV(self.symval(ti["args"][0], sid + "*", parent))
            if short == "Vec":
                e = self.p.types[ti["args"][0]]
                if e["k"] == "uint" and e["bits"] == 8:
                    return VecV(SymBytes(sid))
                raise Undecided("symbolic Vec " + sid)
            if ti["kind"] == "Enum":
                return Agg(t, None, None, Sym(sid, list(range(len(ti["v"])))))
            if ti["kind"] == "Struct" and ti["v"]:
                if ti["crate"] == self.p.crate or short == "FloatOrd":
                    return Agg(t, 0, [self.symval(ft, sid + "." + nm, parent) for (nm, ft) in ti["v"][0]["f"]])
        if k == "tuple":
            return Agg(t, 0, [self.symval(x, "%s.%d" % (sid, i), parent) for i, x in enumerate(ti["f"])])
        raise Undecided("symbolic value of type %s" % (ti.get("name") or k))

    def discr(self, a):
        if type(a) is BoxV:
            raise Undecided("discr of box")
        if type(a) is not Agg:
            raise Undecided("discr of %r" % (type(a).__name__,))
        if a.var is None:
            return Discr(a)
        return self.p.discr_of(a)

    def switch(self, x, table, other):
        """table: list of (int, target)"""
        tx = type(x)
        if tx is bool:
            x = 1 if x else 0
            tx = int
        if tx is int:
            for v, t in table:
                if v == x:
                    return t
            return other
        if tx is SI:
            c = self.conc(x)
            if c is not None:
                for v, t in table:
                    if v == c:
                        return t
                return other
            for v, t in table:
                if self.ieq(x, v):
                    return t
            return other
        if tx is Discr:
            a = x.a
            if a.var is not None:
                return self.switch(self.p.discr_of(a), table, other)
            d = dict(table)
            groups = {}
            for var in a.sym.allow:
                t = d.get(self.p.discr_var(a.ty, var), other)
                groups.setdefault(t, []).append(var)
            gl = sorted(groups.items())
            i = self.choose(len(gl), "kind of %s" % a.sym.id)
            t, vs = gl[i]
            a.sym.allow = vs
            if len(vs) == 1 and not a.sym.opaque:
                self.refine(a, vs[0])
            return t
        raise Undecided("switch on %r" % (tx.__name__,))

    # -- structural equality / order (derived impls, std collections)
    def eq(self, a, b):
        if a is b and type(a) is not FV and not isinstance(a, Agg):
            return True
        ta, tb = type(a), type(b)
        if ta is Ref:
            return self.eq(a.b[a.k], b)
        if tb is Ref:
            return self.eq(a, b.b[b.k])
        if ta is BoxV:
            return self.eq(a.f[0], b)
        if tb is BoxV:
            return self.eq(a, b.f[0])
        if ta is StringV:
            return self.eq(a.v, b)
        if tb is StringV:
            return self.eq(a, b.v)
        if ta in (str, SymStr) and tb in (str, SymStr):
            return self.streq(a, b)
        if ta in (int, bool, SI) and tb in (int, bool, SI):
            return self.ieq(a, b)
        if ta is FV and tb is FV:
            return self.frel("Eq", a, b)
        if ta is Agg and tb is Agg:
            if a is b:
                return True
            if a.var is None and b.var is None and a.sym is b.sym:
                return True
            if a.ty is not None:
                c = self.p.custom_impl(a.ty, "eq")
                if c is not None:
                    r = self.p.run(self, c, [Ref([a], 0), Ref([b], 0)])
                    return r
                if self.p.is_floatord(a.ty):
                    return self.ftotal(a.f[0], b.f[0]) == 0
            self.force(a)
            self.force(b)
            if a.var != b.var:
                return False
            for x, y in zip(a.f, b.f):
                if not self.eq(x, y):
                    return False
            return True
        la, lb = self.aslist(a), self.aslist(b)
        if la is not None and lb is not None:
            if type(la) is SymBytes or type(lb) is SymBytes:
                if type(la) is list:
                    la = self.tobytes(la)
                if type(lb) is list:
                    lb = self.tobytes(lb)
                return self.streq(la, lb) if not (isinstance(la, bytes) and isinstance(lb, bytes)) else la == lb
            if len(la) != len(lb):
                return False
            return all(self.eq(x, y) for x, y in zip(la, lb))
        if ta is MapV and tb is MapV:
            if len(a.e) != len(b.e):
                return False
            return all(self.eq(x[0], y[0]) and self.eq(x[1], y[1]) for x, y in zip(a.e, b.e))
        raise Undecided("eq on %s/%s" % (ta.__name__, tb.__name__))

    def tobytes(self, l):
        c = [self.conc(x) for x in l]
        if any(x is None for x in c):
            raise Undecided("bytes eq")
        return bytes(c)

    def rep_bytes(self, x):
        return x

    def aslist(self, a):
        t = type(a)
        if t is VecV:
            return a.l
        if t is SliceRef:
            return a.items()
        if t is SymBytes:
            return a
        if t is Agg and a.var == 0 and a.ty is not None and self.p.types[a.ty]["k"] == "array":
            return a.f
        return None

    def cmp(self, a, b):
        ta, tb = type(a), type(b)
        if ta is Ref:
            return self.cmp(a.b[a.k], b)
        if tb is Ref:
            return self.cmp(a, b.b[b.k])
        if ta is BoxV:
            return self.cmp(a.f[0], b.f[0])
        if ta is StringV:
            return self.cmp(a.v, b)
        if tb is StringV:
            return self.cmp(a, b.v)
        if ta in (str, SymStr) and tb in (str, SymStr):
            return self.strcmp(a, b)
        if ta in (int, bool, SI) and tb in (int, bool, SI):
            if self.le(a, b, -1):
                return -1
            return 0 if self.le(a, b) else 1
        if ta is FV and tb is FV:
            if self.is_nan(a) or self.is_nan(b):
                raise Undecided("NaN order")
            return self.cmp(SI(self.ford_of(a)), SI(self.ford_of(b)))
        if ta is Agg and tb is Agg:
            if a.ty is not None:
                c = self.p.custom_impl(a.ty, "cmp")
                if c is not None:
                    r = self.p.run(self, c, [Ref([a], 0), Ref([b], 0)])
                    return self.force(r).var - 1
                if self.p.is_floatord(a.ty):
                    return self.ftotal(a.f[0], b.f[0])
            if a is b:
                return 0
            self.force(a)
            self.force(b)
            if a.var != b.var:
                return -1 if a.var < b.var else 1
            for x, y in zip(a.f, b.f):
                c = self.cmp(x, y)
                if c:
                    return c
            return 0
        la, lb = self.aslist(a), self.aslist(b)
        if la is not None and lb is not None:
            if type(la) is SymBytes or type(lb) is SymBytes:
                if type(la) is SymBytes and type(lb) is SymBytes:
                    return self.strcmp(la, lb)
                raise Undecided("bytes order")
            for x, y in zip(la, lb):
                c = self.cmp(x, y)
                if c:
                    return c
            return (len(la) > len(lb)) - (len(la) < len(lb))
        if ta is MapV and tb is MapV:
            for x, y in zip(a.e, b.e):
                c = self.cmp(x[0], y[0]) or self.cmp(x[1], y[1])
                if c:
                    return c
            return (len(a.e) > len(b.e)) - (len(a.e) < len(b.e))
        raise Undecided("cmp on %s/%s" % (ta.__name__, tb.__name__))

    # -- calls
    def call_value(self, fv, args):
        """call a closure / fn item / fn pointer with unpacked arguments"""
        while type(fv) in (Ref, BoxV, RcV):
            fv = fv.b[fv.k] if type(fv) is Ref else fv.f[0]
        t = type(fv)
        if t is PyFn:
            return fv.fn(self, args)
        if t is FnV:
            return self.p.call_inst(self, fv.inst, args, fv)
        if t is Agg and fv.ty is not None:
            ti = self.p.types[fv.ty]
            if ti["k"] == "closure":
                return self.p.call_closure(self, ti["inst"], fv, args)
        raise Undecided("call of %r" % (fv,))


class Sym:
    """refinement state of a lazily refined enum value"""
    __slots__ = ("id", "allow", "opaque", "on_refine", "info")

    def __init__(self, id, allow, opaque=False, on_refine=None, info=None):
        self.id, self.allow, self.opaque, self.on_refine, self.info = id, allow, opaque, on_refine, info

    def __repr__(self):
        return self.id


def replay(prog, body, trace, fuel=400000):
    """re-run one partition recording the local call path"""
    E = Engine(prog, [t[0] for t in trace], fuel)
    E.rec = []
    try:
        body(E)
    except (Infeasible, Undecided):
        pass
    return E.rec


def explore(prog, body, fuel=400000, max_paths=50000, deadline=None):
    """Enumerate every partition of `body(E)`; yields (E, result or exception)."""
    import time
    prefix = []
    n = 0
    while True:
        E = Engine(prog, prefix, fuel)
        try:
            r = body(E)
            yield E, ("ok", r)
        except Infeasible:
            yield E, ("infeasible", None)
        except Undecided as e:
            yield E, ("undecided", str(e))
        n += 1
        tr = E.trace
        i = len(tr) - 1
        while i >= 0 and tr[i][0] + 1 >= tr[i][1]:
            i -= 1
        if i < 0:
            return
        if n >= max_paths or (deadline and time.time() > deadline):
            yield E, ("budget", n)
            return
        prefix = [t[0] for t in tr[:i]] + [tr[i][0] + 1]
