"""Abstract transformers of the standard-library operations used (or likely to
be used) by the crate.  Everything else is either analysed from its own MIR or
makes the trace undecided."""
from .core import (Agg, BoxV, RcV, Ref, SliceRef, StringV, SymStr, SymBytes, VecV, MapV, SI, FV, FnV, PyFn, Obj, IterV,
                   Discr, Undecided, Panic, Infeasible, STOP, unit, tup, some, none, ok, err, opt)
from .prog import dr, cp
from . import ops

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def d1(x):
    """strip reference layers down to the value"""
    while type(x) is Ref:
        x = x.b[x.k]
    return x


def deep(E, x):
    t = type(x)
    if t is Agg:
        if x.var is None:
            return x
        return Agg(x.ty, x.var, [deep(E, y) for y in x.f], x.sym)
    if t is BoxV:
        return BoxV(deep(E, x.f[0]))
    if t is VecV:
        return VecV([deep(E, y) for y in x.l] if type(x.l) is list else x.l)
    if t is StringV:
        return StringV(x.v)
    if t is MapV:
        return MapV([[deep(E, k), deep(E, v)] for k, v in x.e], x.ordered)
    if issubclass(t, IterV):
        raise Undecided("clone of iterator")
    return x


def text(x):
    """the str content of a &str / String / &String / Box<str> / Cow"""
    while True:
        t = type(x)
        if t is Ref:
            x = x.b[x.k]
        elif t in (BoxV, RcV):
            x = x.f[0]
        elif t is StringV:
            x = x.v
        elif t is str or t is SymStr:
            return x
        elif t is Agg and x.f and len(x.f) == 1:
            x = x.f[0]
        else:
            raise Undecided("not text: %s" % t.__name__)


def tn(E, t):
    if t is None:
        return ""
    ti = E.p.types[t]
    if ti["k"] == "adt":
        return ti["name"].split("::")[-1]
    return ti["k"]


def strip_ref(E, t):
    while t is not None and E.p.types[t]["k"] in ("ref", "ptr"):
        t = E.p.types[t]["e"]
    return t


# ------------------------------------------------------------- iterators
class LI(IterV):
    """indexable source: get(E,i), window [lo,hi)"""
    __slots__ = ("get", "lo", "hi")

    def __init__(self, get, n):
        self.get, self.lo, self.hi = get, 0, n
        self.nxt = self._n
        self.back = self._b
        self.rem = lambda E: self.hi - self.lo

    def _n(self, E):
        if self.lo >= self.hi:
            return STOP
        self.lo += 1
        return self.get(E, self.lo - 1)

    def _b(self, E):
        if self.lo >= self.hi:
            return STOP
        self.hi -= 1
        return self.get(E, self.hi)


def list_refs(l, a=0, n=None):
    n = len(l) - a if n is None else n
    return LI(lambda E, i: Ref(l, a + i), n)


def list_vals(l):
    return LI(lambda E, i: l[i], len(l))


def range_kind(E, a):
    if type(a) is Agg and isinstance(a.ty, int):
        ti = E.p.types[a.ty]
        if ti["k"] == "adt":
            return ti["name"].split("::")[-1]
    return ""


def range_next(E, a):
    k = range_kind(E, a)
    if k == "Range":
        if E.le(a.f[0], a.f[1], -1):
            v = a.f[0]
            a.f[0] = addc(v, 1)
            return v
        return STOP
    if k == "RangeInclusive":
        if a.f[2] is True:
            return STOP
        if E.le(a.f[0], a.f[1], -1):
            v = a.f[0]
            a.f[0] = addc(v, 1)
            return v
        if E.ieq(a.f[0], a.f[1]):
            a.f[2] = True
            return a.f[0]
        return STOP
    if k == "RangeFrom":
        v = a.f[0]
        a.f[0] = addc(v, 1)
        return v
    raise Undecided("iterate " + k)


def range_back(E, a):
    k = range_kind(E, a)
    if k == "Range":
        if E.le(a.f[0], a.f[1], -1):
            a.f[1] = addc(a.f[1], -1)
            return a.f[1]
        return STOP
    raise Undecided("iterate back " + k)


def addc(v, c):
    return SI(v.v, v.o + c) if type(v) is SI else v + c


def as_iter(E, x):
    """IntoIterator"""
    t = type(x)
    if issubclass(t, IterV):
        return x
    if t is Ref:
        y = x.b[x.k]
        ty = type(y)
        if issubclass(ty, IterV):
            return y
        if ty is VecV:
            if type(y.l) is list:
                return list_refs(y.l)
            raise Undecided("iterate bytes")
        if ty is SliceRef or ty is Ref:
            return as_iter(E, y)
        if ty is MapV:
            if not y.ordered:
                E.notes.append(("hash-iter", E.where()))
            return LI(lambda E, i: tup(Ref(y.e[i], 0), Ref(y.e[i], 1)), len(y.e))
        if ty is Agg:
            if E.p.types[y.ty]["k"] == "array" if isinstance(y.ty, int) else False:
                return list_refs(y.f)
            if range_kind(E, y).startswith("Range"):
                return IterV(lambda E: range_next(E, y), lambda E: range_back(E, y))
            if range_kind(E, y) == "Option":
                E.force(y)
                return LI(lambda E, i: Ref(y.f, 0), 1 if y.var == 1 else 0)
            return local_iter(E, y)
        if ty is BoxV:
            return as_iter(E, Ref(y.f, 0))
        raise Undecided("iterate &%s" % ty.__name__)
    if t is SliceRef:
        return list_refs(x.l, x.a, x.n)
    if t is VecV:
        if type(x.l) is list:
            return list_vals(x.l)
        raise Undecided("iterate bytes")
    if t is MapV:
        if not x.ordered:
            E.notes.append(("hash-iter", E.where()))
        return LI(lambda E, i: tup(x.e[i][0], x.e[i][1]), len(x.e))
    if t is Agg:
        if isinstance(x.ty, int) and E.p.types[x.ty]["k"] == "array":
            return list_vals(x.f)
        k = range_kind(E, x)
        if k.startswith("Range"):
            return IterV(lambda E: range_next(E, x), lambda E: range_back(E, x))
        if k in ("Option",) or x.ty is None:
            E.force(x)
            return LI(lambda E, i: x.f[0], 1 if x.var == 1 else 0)
        return local_iter(E, x)
    if t is BoxV:
        return as_iter(E, Ref(x.f, 0))
    raise Undecided("iterate %s" % t.__name__)


def local_iter(E, x):
    nm = E.p.variant_name(x)
    for f in E.p.fns:
        if f.local and f.has and f.defn.endswith("Iterator>::next") or (f.local and f.has and "Iterator" in f.name and f.name.endswith("::next")):
            t = strip_ref(E, f.d["locals"][1])
            if t == x.ty:
                def nx(E, f=f):
                    r = E.p.run(E, f, [Ref([x], 0)])
                    E.force(r)
                    return r.f[0] if r.var == 1 else STOP
                return IterV(nx)
    raise Undecided("iterate %s" % nm)


def drain_all(E, it):
    out = []
    while True:
        v = it.nxt(E)
        if v is STOP:
            return out
        out.append(v)
        if len(out) > 5000:
            raise Undecided("long iterator")


@model("std::iter::IntoIterator::into_iter", "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut",
       "std::collections::VecDeque::<T, A>::iter", "std::collections::BTreeMap::<K, V, A>::iter",
       "std::collections::VecDeque::<T, A>::iter_mut",
       "std::collections::HashMap::<K, V, S, A>::iter", "std::option::Option::<T>::iter",
       "std::collections::BTreeMap::<K, V, A>::iter_mut")
def _into_iter(E, a, ci):
    x = a[0]
    if type(x) is Agg and range_kind(E, x).startswith("Range"):
        return x
    if type(x) is SymBytes or (type(x) is Ref and type(d1(x)) is SymBytes):
        raise Undecided("iterate bytes")
    return as_iter(E, x)


@model("std::collections::BTreeMap::<K, V, A>::keys", "std::collections::HashMap::<K, V, S, A>::keys")
def _keys(E, a, ci):
    y = d1(a[0])
    if not y.ordered:
        E.notes.append(("hash-iter", E.where()))
    return LI(lambda E, i: Ref(y.e[i], 0), len(y.e))


@model("std::collections::BTreeMap::<K, V, A>::values", "std::collections::HashMap::<K, V, S, A>::values",
       "std::collections::BTreeMap::<K, V, A>::values_mut", "std::collections::HashMap::<K, V, S, A>::values_mut")
def _values(E, a, ci):
    y = d1(a[0])
    if not y.ordered:
        E.notes.append(("hash-iter", E.where()))
    return LI(lambda E, i: Ref(y.e[i], 1), len(y.e))


@model("std::collections::BTreeMap::<K, V, A>::into_values", "std::collections::HashMap::<K, V, S, A>::into_values")
def _ivalues(E, a, ci):
    y = d1(a[0])
    return LI(lambda E, i: y.e[i][1], len(y.e))


@model("std::collections::BTreeMap::<K, V, A>::into_keys", "std::collections::HashMap::<K, V, S, A>::into_keys")
def _ikeys(E, a, ci):
    y = d1(a[0])
    return LI(lambda E, i: y.e[i][0], len(y.e))


@model("std::iter::Iterator::next")
def _next(E, a, ci):
    x = d1(a[0])
    if type(x) is Agg and range_kind(E, x).startswith("Range"):
        return opt(range_next(E, x))
    return opt(as_iter(E, Ref([x], 0)).nxt(E))


@model("std::iter::DoubleEndedIterator::next_back")
def _next_back(E, a, ci):
    x = d1(a[0])
    if type(x) is Agg and range_kind(E, x).startswith("Range"):
        return opt(range_back(E, x))
    it = as_iter(E, Ref([x], 0))
    if it.back is None:
        raise Undecided("next_back")
    return opt(it.back(E))


@model("std::iter::Iterator::map")
def _map(E, a, ci):
    it, f = as_iter(E, a[0]), a[1]

    def nx(E):
        v = it.nxt(E)
        return STOP if v is STOP else E.call_value(f, [v])

    def bk(E):
        v = it.back(E)
        return STOP if v is STOP else E.call_value(f, [v])
    return IterV(nx, bk if it.back else None, it.rem)


@model("std::iter::Iterator::inspect")
def _inspect(E, a, ci):
    it, f = as_iter(E, a[0]), a[1]

    def nx(E):
        v = it.nxt(E)
        if v is not STOP:
            E.call_value(f, [Ref([v], 0)])
        return v
    return IterV(nx, None, it.rem)


@model("std::iter::Iterator::filter")
def _filter(E, a, ci):
    it, f = as_iter(E, a[0]), a[1]

    def mk(src):
        def nx(E):
            while True:
                v = src(E)
                if v is STOP or E.call_value(f, [Ref([v], 0)]):
                    return v
        return nx
    return IterV(mk(it.nxt), mk(it.back) if it.back else None)


@model("std::iter::Iterator::filter_map")
def _filter_map(E, a, ci):
    it, f = as_iter(E, a[0]), a[1]

    def nx(E):
        while True:
            v = it.nxt(E)
            if v is STOP:
                return v
            r = E.force(E.call_value(f, [v]))
            if r.var == 1:
                return r.f[0]
    return IterV(nx)


@model("std::iter::Iterator::cloned", "std::iter::Iterator::copied")
def _cloned(E, a, ci):
    it = as_iter(E, a[0])

    def w(src):
        def nx(E):
            v = src(E)
            return v if v is STOP else deep(E, dr(v))
        return nx
    return IterV(w(it.nxt), w(it.back) if it.back else None, it.rem)


@model("std::iter::Iterator::enumerate")
def _enumerate(E, a, ci):
    it = as_iter(E, a[0])
    n = [0]

    def nx(E):
        v = it.nxt(E)
        if v is STOP:
            return v
        n[0] += 1
        return tup(n[0] - 1, v)

    def bk(E):
        r = it.rem(E)
        v = it.back(E)
        return v if v is STOP else tup(n[0] + r - 1, v)
    return IterV(nx, bk if it.back and it.rem else None, it.rem)


@model("std::iter::Iterator::zip", "std::iter::zip")
def _zip(E, a, ci):
    x, y = as_iter(E, a[0]), as_iter(E, a[1])

    def nx(E):
        u = x.nxt(E)
        if u is STOP:
            return u
        v = y.nxt(E)
        return v if v is STOP else tup(u, v)
    return IterV(nx)


@model("std::iter::Iterator::chain")
def _chain(E, a, ci):
    x, y = as_iter(E, a[0]), as_iter(E, a[1])

    def nx(E):
        u = x.nxt(E)
        return y.nxt(E) if u is STOP else u

    def bk(E):
        u = y.back(E)
        return x.back(E) if u is STOP else u
    return IterV(nx, bk if x.back and y.back else None)


@model("std::iter::Iterator::rev")
def _rev(E, a, ci):
    it = as_iter(E, a[0])
    if it.back is None:
        raise Undecided("rev")
    return IterV(it.back, it.nxt, it.rem)


@model("std::iter::Iterator::by_ref")
def _by_ref(E, a, ci):
    return a[0]


@model("std::iter::Iterator::take")
def _take(E, a, ci):
    it = as_iter(E, a[0])
    n = [a[1]]

    def nx(E):
        if E.le(n[0], 0):
            return STOP
        n[0] = addc(n[0], -1)
        return it.nxt(E)
    return IterV(nx)


@model("std::iter::Iterator::skip")
def _skip(E, a, ci):
    it = as_iter(E, a[0])
    n = [a[1]]

    def nx(E):
        while not E.le(n[0], 0):
            n[0] = addc(n[0], -1)
            if it.nxt(E) is STOP:
                return STOP
        return it.nxt(E)
    return IterV(nx)


@model("std::iter::Iterator::take_while")
def _take_while(E, a, ci):
    it, f = as_iter(E, a[0]), a[1]
    done = [False]

    def nx(E):
        if done[0]:
            return STOP
        v = it.nxt(E)
        if v is STOP or E.call_value(f, [Ref([v], 0)]):
            return v
        done[0] = True
        return STOP
    return IterV(nx)


@model("std::iter::Iterator::skip_while")
def _skip_while(E, a, ci):
    it, f = as_iter(E, a[0]), a[1]
    done = [False]

    def nx(E):
        while True:
            v = it.nxt(E)
            if v is STOP or done[0] or not E.call_value(f, [Ref([v], 0)]):
                done[0] = True
                return v
    return IterV(nx)


@model("std::iter::Iterator::map_while")
def _map_while(E, a, ci):
    it, f = as_iter(E, a[0]), a[1]

    def nx(E):
        v = it.nxt(E)
        if v is STOP:
            return v
        r = E.force(E.call_value(f, [v]))
        return r.f[0] if r.var == 1 else STOP
    return IterV(nx)


class Peek(IterV):
    __slots__ = ("buf",)


@model("std::iter::Iterator::peekable")
def _peekable(E, a, ci):
    it = as_iter(E, a[0])
    buf = []

    def nx(E):
        if buf:
            return buf.pop()
        return it.nxt(E)
    r = IterV(nx)
    r.rem = ("peek", it, buf)
    return r


@model("std::iter::Peekable::<I>::peek", "std::iter::Peekable::<I>::peek_mut")
def _peek(E, a, ci):
    x = d1(a[0])
    _, it, buf = x.rem
    if not buf:
        buf.append(it.nxt(E))
    v = buf[0]
    return none() if v is STOP else some(Ref(buf, 0))


@model("std::iter::Iterator::flat_map")
def _flat_map(E, a, ci):
    return flatten_iter(E, _map(E, a, ci))


@model("std::iter::Iterator::flatten")
def _flatten(E, a, ci):
    return flatten_iter(E, as_iter(E, a[0]))


def flatten_iter(E, it):
    cur = [None]

    def nx(E):
        while True:
            if cur[0] is None:
                v = it.nxt(E)
                if v is STOP:
                    return v
                cur[0] = res_iter(E, v)
            w = cur[0].nxt(E)
            if w is not STOP:
                return w
            cur[0] = None
    return IterV(nx)


def res_iter(E, v):
    if type(v) is Agg and range_kind(E, v) == "Result":
        E.force(v)
        return list_vals([v.f[0]] if v.var == 0 else [])
    return as_iter(E, v)


@model("std::iter::once")
def _once(E, a, ci):
    return list_vals([a[0]])


@model("std::iter::empty")
def _empty(E, a, ci):
    return list_vals([])


@model("std::iter::repeat")
def _repeat(E, a, ci):
    return IterV(lambda E: deep(E, a[0]))


@model("std::iter::from_fn")
def _from_fn(E, a, ci):
    def nx(E):
        r = E.force(E.call_value(a[0], []))
        return r.f[0] if r.var == 1 else STOP
    return IterV(nx)


@model("std::iter::successors")
def _successors(E, a, ci):
    cur = [a[0]]

    def nx(E):
        r = E.force(cur[0])
        if r.var == 0:
            return STOP
        cur[0] = E.call_value(a[1], [Ref([r.f[0]], 0)])
        return r.f[0]
    return IterV(nx)


@model("std::iter::Iterator::any")
def _any(E, a, ci):
    it = as_iter(E, a[0])
    while True:
        v = it.nxt(E)
        if v is STOP:
            return False
        if E.call_value(a[1], [v]):
            return True


@model("std::iter::Iterator::all")
def _all(E, a, ci):
    it = as_iter(E, a[0])
    while True:
        v = it.nxt(E)
        if v is STOP:
            return True
        if not E.call_value(a[1], [v]):
            return False


@model("std::iter::Iterator::find")
def _find(E, a, ci):
    it = as_iter(E, a[0])
    while True:
        v = it.nxt(E)
        if v is STOP:
            return none()
        if E.call_value(a[1], [Ref([v], 0)]):
            return some(v)


@model("std::iter::Iterator::find_map")
def _find_map(E, a, ci):
    it = as_iter(E, a[0])
    while True:
        v = it.nxt(E)
        if v is STOP:
            return none()
        r = E.force(E.call_value(a[1], [v]))
        if r.var == 1:
            return r


@model("std::iter::Iterator::position")
def _position(E, a, ci):
    it = as_iter(E, a[0])
    i = 0
    while True:
        v = it.nxt(E)
        if v is STOP:
            return none()
        if E.call_value(a[1], [v]):
            return some(i)
        i += 1


@model("std::iter::Iterator::fold")
def _fold(E, a, ci):
    it = as_iter(E, a[0])
    acc = a[1]
    while True:
        v = it.nxt(E)
        if v is STOP:
            return acc
        acc = E.call_value(a[2], [acc, v])


@model("std::iter::Iterator::reduce")
def _reduce(E, a, ci):
    it = as_iter(E, a[0])
    acc = it.nxt(E)
    if acc is STOP:
        return none()
    while True:
        v = it.nxt(E)
        if v is STOP:
            return some(acc)
        acc = E.call_value(a[1], [acc, v])


def is_success(E, r, t):
    """(success?, payload) for a Try value"""
    E.force(r)
    n = tn(E, t) or (range_kind(E, r))
    if n == "Option":
        return (r.var == 1, r.f[0] if r.var == 1 else None)
    return (r.var == 0, r.f[0] if r.var == 0 else None)


@model("std::iter::Iterator::try_fold")
def _try_fold(E, a, ci):
    it = as_iter(E, a[0])
    acc = a[1]
    rt = ci.dest
    if rt is None:
        raise Undecided("try_fold type")
    n = tn(E, rt)
    while True:
        v = it.nxt(E)
        if v is STOP:
            return some(acc) if n == "Option" else Agg(None, 0, [acc])
        r = E.call_value(a[2], [acc, v])
        s, p = is_success(E, r, rt)
        if not s:
            return r
        acc = p


@model("std::iter::Iterator::try_for_each")
def _try_for_each(E, a, ci):
    it = as_iter(E, a[0])
    rt = ci.dest
    n = tn(E, rt)
    if rt is None:
        raise Undecided("try_for_each type")
    while True:
        v = it.nxt(E)
        if v is STOP:
            return some(unit()) if n == "Option" else Agg(None, 0, [unit()])
        r = E.call_value(a[1], [v])
        if not is_success(E, r, rt)[0]:
            return r


@model("std::iter::Iterator::for_each")
def _for_each(E, a, ci):
    it = as_iter(E, a[0])
    while True:
        v = it.nxt(E)
        if v is STOP:
            return unit()
        E.call_value(a[1], [v])


@model("std::iter::Iterator::count", "std::iter::ExactSizeIterator::len")
def _count(E, a, ci):
    it = as_iter(E, a[0])
    if ci.decl.endswith("len"):
        if callable(it.rem):
            return it.rem(E)
        raise Undecided("iterator len")
    return len(drain_all(E, it))


@model("std::iter::Iterator::last")
def _last(E, a, ci):
    l = drain_all(E, as_iter(E, a[0]))
    return some(l[-1]) if l else none()


@model("std::iter::Iterator::nth")
def _nth(E, a, ci):
    it = as_iter(E, a[0])
    n = E.concretize(a[1])
    for _ in range(n):
        if it.nxt(E) is STOP:
            return none()
    return opt(it.nxt(E))


@model("std::iter::Iterator::sum")
def _sum(E, a, ci):
    s = 0
    for v in drain_all(E, as_iter(E, a[0])):
        s = ops.raw(E, "Add", s, d1(v))
    return s


@model("std::iter::Iterator::max", "std::iter::Iterator::min")
def _minmax(E, a, ci):
    l = drain_all(E, as_iter(E, a[0]))
    if not l:
        return none()
    r = l[0]
    for v in l[1:]:
        c = E.cmp(v, r)
        if (ci.decl.endswith("max") and c >= 0) or (ci.decl.endswith("min") and c < 0):
            r = v
    return some(r)


@model("std::iter::Iterator::partition")
def _partition(E, a, ci):
    x, y = [], []
    for v in drain_all(E, as_iter(E, a[0])):
        (x if E.call_value(a[1], [Ref([v], 0)]) else y).append(v)
    t = E.p.types[ci.ta[1]] if len(ci.ta) > 1 else None
    return tup(VecV(x), VecV(y))


@model("std::iter::Iterator::unzip")
def _unzip(E, a, ci):
    x, y = [], []
    for v in drain_all(E, as_iter(E, a[0])):
        x.append(v.f[0])
        y.append(v.f[1])
    return tup(VecV(x), VecV(y))


@model("std::iter::Iterator::size_hint")
def _size_hint(E, a, ci):
    return tup(0, none())


@model("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def _collect(E, a, ci):
    if ci.decl.endswith("from_iter"):
        t = ci.ta[0]
    else:
        t = ci.ta[1] if len(ci.ta) > 1 else ci.dest
    return from_iter(E, as_iter(E, a[0]), t)


def from_iter(E, it, t):
    ti = E.p.types[t]
    n = tn(E, t)
    if n in ("Vec", "VecDeque", "LinkedList"):
        l = drain_all(E, it)
        return VecV(l)
    if n in ("BTreeMap", "HashMap"):
        m = MapV([], n == "BTreeMap")
        for kv in drain_all(E, it):
            map_insert(E, m, kv.f[0], kv.f[1])
        return m
    if n in ("HashSet", "BTreeSet"):
        m = MapV([], n == "BTreeSet")
        for k in drain_all(E, it):
            map_insert(E, m, k, unit())
        return m
    if n in ("Result", "Option"):
        bad = []
        good = 0 if n == "Result" else 1

        def nx(E):
            v = it.nxt(E)
            if v is STOP:
                return v
            E.force(v)
            if v.var != good:
                bad.append(v)
                return STOP
            return v.f[0]
        r = from_iter(E, IterV(nx), ti["args"][0])
        if bad:
            return Agg(None, 1 - good, list(bad[0].f))
        return Agg(None, good, [r])
    if n == "String":
        return StringV(concat(E, drain_all(E, it)))
    if n == "Box":
        l = drain_all(E, it)
        return BoxV(SliceRef(l))
    if n in ("Rc", "Arc"):
        return RcV(SliceRef(drain_all(E, it)))
    if n == "tuple" and not ti["f"]:
        drain_all(E, it)
        return unit()
    raise Undecided("collect into %s" % n)


def concat(E, parts):
    s = ""
    for p in parts:
        p = d1(p)
        if type(p) is int:
            p = chr(p)
        else:
            p = text(p) if type(p) is not SI else None
        if not isinstance(p, str) or s is None:
            s = None
        else:
            s += p
    return s if s is not None else SymStr(E.fresh("concat"))


# ------------------------------------------------------------- maps
def map_find(E, m, k):
    same = (lambda x, y: E.cmp(x, y) == 0) if m.ordered and E.p.any_custom() else E.eq
    for i, e in enumerate(m.e):
        if same(e[0], k):
            return i
    return None


def map_insert(E, m, k, v):
    if m.ordered:
        for i, e in enumerate(m.e):
            c = E.cmp(k, e[0])
            if c == 0:
                old = e[1]
                e[1] = v
                return old
            if c < 0:
                m.e.insert(i, [k, v])
                return STOP
        m.e.append([k, v])
        return STOP
    i = map_find(E, m, k)
    if i is not None:
        old = m.e[i][1]
        m.e[i][1] = v
        return old
    m.e.append([k, v])
    return STOP


B, H = "std::collections::BTreeMap::<K, V, A>::", "std::collections::HashMap::<K, V, S, A>::"


@model(B + "new", "std::collections::BTreeMap::<K, V>::new")
def _bnew(E, a, ci):
    return MapV([], True)


@model("std::collections::HashMap::<K, V>::new", "std::collections::HashMap::<K, V>::with_capacity", H + "new")
def _hnew(E, a, ci):
    return MapV([], False)


@model(B + "get", H + "get")
def _mget(E, a, ci):
    m = d1(a[0])
    i = map_find(E, m, a[1])
    return none() if i is None else some(Ref(m.e[i], 1))


@model(B + "get_mut", H + "get_mut")
def _mgetm(E, a, ci):
    return _mget(E, a, ci)


@model(B + "get_key_value", H + "get_key_value")
def _mgetkv(E, a, ci):
    m = d1(a[0])
    i = map_find(E, m, a[1])
    return none() if i is None else some(tup(Ref(m.e[i], 0), Ref(m.e[i], 1)))


@model(B + "contains_key", H + "contains_key")
def _mck(E, a, ci):
    return map_find(E, d1(a[0]), a[1]) is not None


@model(B + "insert", H + "insert")
def _mins(E, a, ci):
    return opt(map_insert(E, d1(a[0]), a[1], a[2]))


@model(B + "remove", H + "remove")
def _mrem(E, a, ci):
    m = d1(a[0])
    i = map_find(E, m, a[1])
    return none() if i is None else some(m.e.pop(i)[1])


@model(B + "remove_entry", H + "remove_entry")
def _mreme(E, a, ci):
    m = d1(a[0])
    i = map_find(E, m, a[1])
    return none() if i is None else some(tup(*m.e.pop(i)))


@model(B + "is_empty", H + "is_empty")
def _mempty(E, a, ci):
    return not d1(a[0]).e


@model(B + "len", H + "len")
def _mlen(E, a, ci):
    return len(d1(a[0]).e)


@model(B + "clear", H + "clear")
def _mclear(E, a, ci):
    d1(a[0]).e[:] = []
    return unit()


@model(B + "append")
def _mappend(E, a, ci):
    x, y = d1(a[0]), d1(a[1])
    for k, v in y.e:
        map_insert(E, x, k, v)
    y.e[:] = []
    return unit()


@model(B + "retain", H + "retain")
def _mretain(E, a, ci):
    m = d1(a[0])
    m.e[:] = [e for e in m.e if E.call_value(a[1], [Ref(e, 0), Ref(e, 1)])]
    return unit()


@model(B + "first_key_value")
def _mfirst(E, a, ci):
    m = d1(a[0])
    return some(tup(Ref(m.e[0], 0), Ref(m.e[0], 1))) if m.e else none()


@model(B + "last_key_value")
def _mlast(E, a, ci):
    m = d1(a[0])
    return some(tup(Ref(m.e[-1], 0), Ref(m.e[-1], 1))) if m.e else none()


@model(B + "pop_first")
def _mpopf(E, a, ci):
    m = d1(a[0])
    return some(tup(*m.e.pop(0))) if m.e else none()


@model(B + "entry", H + "entry")
def _mentry(E, a, ci):
    m = d1(a[0])
    return Obj("entry", m=m, k=a[1], i=map_find(E, m, a[1]))


def _entry_or(E, ent, mk):
    m, i = ent.d["m"], ent.d["i"]
    if i is None:
        map_insert(E, m, ent.d["k"], mk())
        i = map_find(E, m, ent.d["k"])
    return Ref(m.e[i], 1)


for _p in ("std::collections::btree_map::Entry::<'a, K, V, A>::", "std::collections::hash_map::Entry::<'a, K, V, A>::",
           "std::collections::hash_map::Entry::<'a, K, V>::", "std::collections::btree_map::Entry::<'a, K, V>::"):
    M[_p + "or_insert"] = lambda E, a, ci: _entry_or(E, a[0], lambda: a[1])
    M[_p + "or_insert_with"] = lambda E, a, ci: _entry_or(E, a[0], lambda: E.call_value(a[1], []))
    M[_p + "or_default"] = lambda E, a, ci: _entry_or(E, a[0], lambda: default(E, ci.ta[1]))


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _index(E, a, ci):
    x, i = a[0], a[1]
    y = x
    while type(y) is Ref and type(y.b[y.k]) in (Ref, SliceRef, BoxV, VecV, StringV, MapV, str, SymStr, SymBytes):
        y = y.b[y.k]
    if type(y) is BoxV:
        y = y.f[0]
    if type(y) is MapV:
        j = map_find(E, y, i)
        if j is None:
            raise Panic("index: key not in map", E.where())
        return Ref(y.e[j], 1)
    if type(y) is StringV:
        y = y.v
    if type(y) in (str, SymStr):
        return str_slice(E, y, i)
    if type(y) is Ref:
        y = y.b[y.k]
    l, s, n = seq(E, y)
    if type(i) in (int, SI):
        if type(l) is not list:
            raise Undecided("byte index")
        if not E.le(i, n, -1):
            raise Panic("index out of bounds", E.where())
        i = E.concretize(i, 64, "index")
        return Ref(l, s + i)
    lo, hi = range_bounds(E, i, n)
    if type(l) is not list:
        if lo == 0 and hi is n:
            return l
        raise Undecided("byte slice")
    if not (E.le(lo, hi) and E.le(hi, n)):
        raise Panic("slice range out of bounds", E.where())
    lo, hi = E.concretize(lo), E.concretize(hi)
    return SliceRef(l, s + lo, hi - lo)


def seq(E, y):
    t = type(y)
    if t is VecV:
        if type(y.l) is list:
            return y.l, 0, len(y.l)
        return y.l, 0, E.strlen(y.l)
    if t is SliceRef:
        return y.l, y.a, y.n
    if t is SymBytes:
        return y, 0, E.strlen(y)
    if t is Agg:
        return y.f, 0, len(y.f)
    raise Undecided("sequence %s" % t.__name__)


def range_bounds(E, r, n):
    k = range_kind(E, r)
    if k == "RangeFull":
        return 0, n
    if k == "Range":
        return r.f[0], r.f[1]
    if k == "RangeTo":
        return 0, r.f[0]
    if k == "RangeFrom":
        return r.f[0], n
    if k == "RangeInclusive":
        return r.f[0], addc(r.f[1], 1)
    if k == "RangeToInclusive":
        return 0, addc(r.f[0], 1)
    raise Undecided("range kind %s" % k)


def str_slice(E, s, r):
    if not isinstance(s, str):
        hook = getattr(E, "str_slice_hook", None)
        if hook:
            return hook(s, r)
        raise Undecided("slice of symbolic text")
    n = len(s.encode())
    lo, hi = range_bounds(E, r, n)
    lo, hi = E.concretize(lo), E.concretize(hi)
    b = s.encode()
    if not 0 <= lo <= hi <= n:
        raise Panic("str slice out of range", E.where())
    try:
        b[:lo].decode()
        return b[lo:hi].decode()
    except UnicodeDecodeError:
        raise Panic("str slice not on a char boundary", E.where())


# ------------------------------------------------------------- vec / deque / slice
V, D = "std::vec::Vec::<T, A>::", "std::collections::VecDeque::<T, A>::"
S = "core::slice::<impl [T]>::"


@model("std::vec::Vec::<T>::new", "std::collections::VecDeque::<T>::new", "std::vec::Vec::<T>::with_capacity",
       "std::collections::VecDeque::<T>::with_capacity", V + "new_in")
def _vnew(E, a, ci):
    return VecV([])


def lst(E, x):
    y = d1(x)
    if type(y) is BoxV:
        y = y.f[0]
    if type(y) is VecV:
        if type(y.l) is not list:
            raise Undecided("elements of opaque bytes")
        return y.l
    raise Undecided("not a Vec: %s" % type(y).__name__)


@model(V + "push", D + "push_back", V + "push_mut", D + "push_back_mut")
def _push(E, a, ci):
    lst(E, a[0]).append(a[1])
    return unit()


@model(D + "push_front")
def _pushf(E, a, ci):
    lst(E, a[0]).insert(0, a[1])
    return unit()


@model(V + "pop", D + "pop_back")
def _pop(E, a, ci):
    l = lst(E, a[0])
    return some(l.pop()) if l else none()


@model(D + "pop_front")
def _popf(E, a, ci):
    l = lst(E, a[0])
    return some(l.pop(0)) if l else none()


@model(V + "len", D + "len", S + "len", "std::string::String::len", "core::str::<impl str>::len")
def _len(E, a, ci):
    y = d1(a[0])
    if type(y) is BoxV:
        y = y.f[0]
    if type(y) is VecV:
        return len(y.l) if type(y.l) is list else E.strlen(y.l)
    if type(y) is StringV:
        return E.strlen(y.v)
    if type(y) in (str, SymStr, SymBytes):
        return E.strlen(y)
    if type(y) is SliceRef:
        return y.n
    if type(y) is Agg:
        return len(y.f)
    raise Undecided("len of %s" % type(y).__name__)


@model(V + "is_empty", D + "is_empty", S + "is_empty", "std::string::String::is_empty", "core::str::<impl str>::is_empty")
def _is_empty(E, a, ci):
    return E.ieq(_len(E, a, ci), 0)


@model(D + "front", S + "first", D + "front_mut", S + "first_mut")
def _front(E, a, ci):
    l, s, n = seq(E, d1(a[0]))
    if type(l) is not list:
        raise Undecided("bytes first")
    return some(Ref(l, s)) if n else none()


@model(D + "back", S + "last", D + "back_mut", S + "last_mut")
def _back(E, a, ci):
    l, s, n = seq(E, d1(a[0]))
    if type(l) is not list:
        raise Undecided("bytes last")
    return some(Ref(l, s + n - 1)) if n else none()


@model(D + "get", S + "get", D + "get_mut", S + "get_mut")
def _get(E, a, ci):
    l, s, n = seq(E, d1(a[0]))
    if type(a[1]) not in (int, SI):
        lo, hi = range_bounds(E, a[1], n)
        if type(l) is not list:
            raise Undecided("bytes get")
        if not (E.le(lo, hi) and E.le(hi, n)):
            return none()
        lo, hi = E.concretize(lo), E.concretize(hi)
        return some(SliceRef(l, s + lo, hi - lo))
    if type(l) is not list:
        raise Undecided("bytes get")
    if not E.le(a[1], n, -1):
        return none()
    return some(Ref(l, s + E.concretize(a[1])))


@model(V + "insert", D + "insert")
def _insert(E, a, ci):
    l = lst(E, a[0])
    i = E.concretize(a[1])
    if i > len(l):
        raise Panic("insert index", E.where())
    l.insert(i, a[2])
    return unit()


@model(V + "remove")
def _remove(E, a, ci):
    l = lst(E, a[0])
    i = E.concretize(a[1])
    if i >= len(l):
        raise Panic("remove index", E.where())
    return l.pop(i)


@model(D + "remove")
def _dremove(E, a, ci):
    l = lst(E, a[0])
    i = E.concretize(a[1])
    return some(l.pop(i)) if i < len(l) else none()


@model(V + "swap_remove")
def _swap_remove(E, a, ci):
    l = lst(E, a[0])
    i = E.concretize(a[1])
    if i >= len(l):
        raise Panic("swap_remove index", E.where())
    v = l[i]
    w = l.pop()
    if i < len(l):
        l[i] = w
    return v


@model(V + "truncate", D + "truncate")
def _truncate(E, a, ci):
    l = lst(E, a[0])
    del l[E.concretize(a[1]):]
    return unit()


@model(V + "clear", D + "clear")
def _clear(E, a, ci):
    l = lst(E, a[0])
    del l[:]
    return unit()


@model(V + "append", D + "append")
def _append(E, a, ci):
    x, y = lst(E, a[0]), lst(E, a[1])
    x += y
    del y[:]
    return unit()


@model(V + "drain", D + "drain")
def _drain(E, a, ci):
    l = lst(E, a[0])
    lo, hi = range_bounds(E, a[1], len(l))
    lo, hi = E.concretize(lo), E.concretize(hi)
    if not 0 <= lo <= hi <= len(l):
        raise Panic("drain range", E.where())
    out = l[lo:hi]
    del l[lo:hi]
    return list_vals(out)


@model(V + "split_off", D + "split_off")
def _split_off(E, a, ci):
    l = lst(E, a[0])
    i = E.concretize(a[1])
    if i > len(l):
        raise Panic("split_off", E.where())
    out = l[i:]
    del l[i:]
    return VecV(out)


@model(V + "retain", D + "retain", V + "retain_mut")
def _retain(E, a, ci):
    l = lst(E, a[0])
    l[:] = [x for x in list(l) if E.call_value(a[1], [Ref([x], 0)])]
    return unit()


@model(V + "reserve", D + "reserve", V + "shrink_to_fit", V + "reserve_exact", D + "shrink_to_fit")
def _reserve(E, a, ci):
    return unit()


@model(V + "capacity")
def _cap(E, a, ci):
    return E.int_var(0, (1 << 63) - 1)


@model(V + "as_slice", V + "as_mut_slice", "std::string::String::as_str", "std::string::String::as_bytes",
       "core::str::<impl str>::as_bytes", V + "into_boxed_slice", "std::string::String::into_bytes",
       D + "make_contiguous", "std::string::String::into_boxed_str", "std::string::String::as_mut_str",
       "core::slice::<impl [T]>::into_vec")
def _view(E, a, ci):
    y = d1(a[0])
    bytesish = ci.decl.endswith("bytes")
    if type(y) is StringV:
        y = y.v
    if type(y) in (str, SymStr):
        if bytesish:
            if ci.decl.endswith("into_bytes"):
                return VecV(strbytes(E, y))
            return strbytes_ref(E, y)
        return y
    if type(y) is VecV:
        if ci.decl.endswith("into_boxed_slice"):
            return BoxV(SliceRef(y.l) if type(y.l) is list else y.l)
        return SliceRef(y.l) if type(y.l) is list else y.l
    if type(y) is BoxV and ci.decl.endswith("into_vec"):
        z = y.f[0]
        if type(z) is SliceRef:
            return VecV(z.items())
        if type(z) is Agg:
            return VecV(z.f)
        if type(z) is SymBytes:
            return VecV(z)
    raise Undecided("view of %s" % type(y).__name__)


def strbytes_ref(E, s):
    b = strbytes(E, s)
    return SliceRef(b) if type(b) is list else b


def strbytes(E, s):
    if isinstance(s, str):
        return list(s.encode())
    b = SymBytes(("utf8", s.id), {"of": s})
    k = E.rep(b)
    if k not in E.lens:
        E.lens[k] = E.strlen(s)
    return b


@model("core::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::to_owned")
def _to_vec(E, a, ci):
    y = d1(a[0])
    if type(y) is SymBytes:
        return VecV(y)
    l, s, n = seq(E, y)
    return VecV([deep(E, x) for x in l[s:s + n]])


@model(S + "contains", D + "contains")
def _contains(E, a, ci):
    l, s, n = seq(E, d1(a[0]))
    return any(E.eq(x, a[1]) for x in l[s:s + n])


@model(S + "split_first", S + "split_last")
def _split_first(E, a, ci):
    l, s, n = seq(E, d1(a[0]))
    if n == 0:
        return none()
    if ci.decl.endswith("first"):
        return some(tup(Ref(l, s), SliceRef(l, s + 1, n - 1)))
    return some(tup(Ref(l, s + n - 1), SliceRef(l, s, n - 1)))


@model(S + "swap")
def _swap_i(E, a, ci):
    l, s, n = seq(E, d1(a[0]))
    i, j = E.concretize(a[1]), E.concretize(a[2])
    l[s + i], l[s + j] = l[s + j], l[s + i]
    return unit()


@model(S + "reverse")
def _reverse(E, a, ci):
    l, s, n = seq(E, d1(a[0]))
    l[s:s + n] = l[s:s + n][::-1]
    return unit()


@model(S + "starts_with", S + "ends_with")
def _sw(E, a, ci):
    l, s, n = seq(E, d1(a[0]))
    m, t, k = seq(E, d1(a[1]))
    if type(l) is not list or type(m) is not list:
        raise Undecided("bytes prefix")
    if k > n:
        return False
    o = 0 if ci.decl.endswith("starts_with") else n - k
    return all(E.eq(l[s + o + i], m[t + i]) for i in range(k))


@model("std::slice::<impl [T]>::sort", S + "sort_unstable", "std::slice::<impl [T]>::sort_by", S + "sort_unstable_by",
       "std::slice::<impl [T]>::sort_by_key", S + "sort_unstable_by_key")
def _sort(E, a, ci):
    import functools
    l, s, n = seq(E, d1(a[0]))
    if ci.decl.endswith("_by_key"):
        c = lambda x, y: E.cmp(E.call_value(a[1], [Ref([x], 0)]), E.call_value(a[1], [Ref([y], 0)]))
    elif ci.decl.endswith("_by"):
        c = lambda x, y: E.call_value(a[1], [Ref([x], 0), Ref([y], 0)]).var - 1
    else:
        c = E.cmp
    l[s:s + n] = sorted(l[s:s + n], key=functools.cmp_to_key(c))
    return unit()


@model("std::iter::Extend::extend", V + "extend_from_slice", V + "extend_one")
def _extend(E, a, ci):
    y = d1(a[0])
    if type(y) is MapV:
        for kv in drain_all(E, as_iter(E, a[1])):
            map_insert(E, y, deep(E, dr(kv.f[0])) if False else kv.f[0], kv.f[1])
        return unit()
    if type(y) is StringV:
        y.v = concat(E, [y] + drain_all(E, as_iter(E, a[1])))
        return unit()
    l = lst(E, a[0])
    src = drain_all(E, as_iter(E, a[1]))
    if ci.decl.endswith("from_slice"):
        src = [deep(E, dr(x)) for x in src]
    elif ci.decl.startswith("std::iter") and len(ci.ta) > 1 and E.p.types[ci.ta[1]]["k"] == "ref":
        src = [deep(E, dr(x)) for x in src]
    l += src
    return unit()


# ------------------------------------------------------------- box / refs / mem
@model("std::boxed::Box::<T>::new", "std::boxed::Box::<T>::from", "std::boxed::Box::<T>::pin")
def _boxnew(E, a, ci):
    return BoxV(a[0])


@model("std::boxed::Box::<T>::new_uninit")
def _boxuninit(E, a, ci):
    return BoxV(None)


@model("std::boxed::box_assume_init_into_vec_unsafe")
def _boxvec(E, a, ci):
    return VecV(a[0].f[0].f)


@model("std::rc::Rc::<T>::new", "std::sync::Arc::<T>::new")
def _rcnew(E, a, ci):
    return RcV(a[0])


@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow",
       "std::convert::AsMut::as_mut", "std::boxed::Box::<T, A>::as_ref", "std::option::Option::<T>::as_slice")
def _deref(E, a, ci):
    x = a[0]
    y = dr(x)
    t = type(y)
    if t is StringV:
        return y.v
    if t is VecV:
        dt = strip_ref(E, ci.dest)
        if dt is not None and tn(E, dt) == "Vec":
            return x
        return SliceRef(y.l) if type(y.l) is list else y.l
    if t in (BoxV, RcV):
        z = y.f[0]
        if type(z) in (SliceRef, str, SymStr, SymBytes):
            return z
        return Ref(y.f, 0)
    if t in (str, SymStr, SliceRef, SymBytes):
        if ci.dest is not None:
            dt = E.p.types[ci.dest]
            if dt["k"] == "ref" and E.p.types[dt["e"]]["k"] == "slice" and t in (str, SymStr):
                return strbytes_ref(E, y)
        return y
    if t is Ref:
        return y
    if t is Agg and isinstance(y.ty, int) and E.p.types[y.ty]["k"] == "array":
        return SliceRef(y.f)
    if t is Agg and range_kind(E, y) == "Cow":
        E.force(y)
        return text(y.f[0])
    if t is Obj and "content" in y.d:
        return y.d["content"]
    raise Undecided("deref of %s" % t.__name__)


@model("std::mem::swap")
def _swap(E, a, ci):
    x, y = a
    p, q = x.b[x.k], y.b[y.k]
    x.b[x.k], y.b[y.k] = q, p
    return unit()


@model("std::mem::replace")
def _replace(E, a, ci):
    x = a[0]
    o = x.b[x.k]
    x.b[x.k] = a[1]
    return o


@model("std::mem::take", "std::option::Option::<T>::take")
def _take_mem(E, a, ci):
    x = a[0]
    o = x.b[x.k]
    if "Option" in ci.decl:
        x.b[x.k] = none()
        return o
    x.b[x.k] = default(E, ci.ta[0])
    return o


@model("std::mem::drop", "std::mem::forget")
def _drop(E, a, ci):
    return unit()


@model("std::mem::discriminant")
def _discriminant(E, a, ci):
    y = d1(a[0])
    if type(y) is Agg:
        if y.var is None:
            E.force(y)
        return Agg(None, 0, [E.p.discr_of(y)])
    raise Undecided("discriminant")


@model("std::hint::must_use", "std::convert::identity", "std::hint::black_box")
def _id(E, a, ci):
    return a[0]


def default(E, t):
    ti = E.p.types[t]
    n = tn(E, t)
    if n in ("Vec", "VecDeque"):
        return VecV([])
    if n == "String":
        return StringV("")
    if n == "HashMap":
        return MapV([], False)
    if n == "BTreeMap":
        return MapV([], True)
    if n == "Option":
        return none()
    if n in ("uint", "int", "char"):
        return 0
    if n == "bool":
        return False
    if n == "float":
        return FV(bits=0)
    if n == "tuple":
        return tup(*[default(E, x) for x in ti["f"]])
    if ti["k"] == "ref" and E.p.types[ti["e"]]["k"] == "str":
        return ""
    raise Undecided("default of %s" % n)


@model("std::default::Default::default")
def _default(E, a, ci):
    t = ci.ta[0] if ci.ta else ci.dest
    try:
        return default(E, t)
    except Undecided:
        return NotImplemented


@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::option::Option::<&T>::cloned",
       "std::option::Option::<&T>::copied", "std::borrow::Cow::<'_, B>::into_owned",
       "core::str::<impl str>::to_owned", "std::result::Result::<&T, E>::cloned", "std::option::Option::<&mut T>::cloned",
       "std::clone::impls::<impl std::clone::Clone for &T>::clone")
def _clone(E, a, ci):
    x = a[0]
    if ci.decl.startswith("std::option") or ci.decl.startswith("std::result"):
        E.force(x)
        good = 1 if "option" in ci.decl else 0
        if x.var != good:
            return Agg(x.ty if False else None, x.var, list(x.f))
        return Agg(None, good, [deep(E, dr(x.f[0]))])
    t = type(x)
    if t in (str, SymStr):
        return StringV(x)
    if t is SliceRef:
        return VecV([deep(E, y) for y in x.items()])
    if t is SymBytes:
        return VecV(x)
    y = dr(x)
    if type(y) is Agg and isinstance(y.ty, int) and E.p.types[y.ty]["k"] == "closure":
        return deep(E, y)
    if isinstance(y, IterV):
        return clone_iter(E, y)
    return deep(E, y)


def clone_iter(E, y):
    if hasattr(y, "copy"):
        return y.copy()
    if type(y) is LI:
        z = LI(y.get, 0)
        z.lo, z.hi = y.lo, y.hi
        return z
    raise Undecided("clone of iterator adaptor")


@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def _eq(E, a, ci):
    r = E.eq(a[0], a[1])
    return r if ci.decl.endswith("::eq") else not r


@model("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def _ord(E, a, ci):
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[ci.decl.split("::")[-1]]
    x, y = d1(a[0]), d1(a[1])
    if type(x) is FV:
        return E.frel(op, x, y)
    if type(x) in (int, SI, bool):
        return ops.binop(E, op, int(x) if type(x) is bool else x, int(y) if type(y) is bool else y, None)
    c = E.cmp(x, y)
    return {"Lt": c < 0, "Le": c <= 0, "Gt": c > 0, "Ge": c >= 0}[op]


@model("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
def _cmp(E, a, ci):
    x, y = d1(a[0]), d1(a[1])
    part = ci.decl.endswith("partial_cmp")
    if part and type(x) is FV and (E.is_nan(x) or E.is_nan(y)):
        return none()
    c = E.p.mk_ordering(E.cmp(x, y))
    return some(c) if part else c


@model("std::cmp::Ord::max", "std::cmp::Ord::min", "std::cmp::max", "std::cmp::min")
def _max(E, a, ci):
    c = E.cmp(a[0], a[1])
    if ci.decl.endswith("max"):
        return a[1] if c <= 0 else a[0]
    return a[0] if c <= 0 else a[1]


def ple(E, a, b):
    a, b = d1(a), d1(b)
    if type(a) is FV:
        return E.frel("Le", a, b)
    return E.cmp(a, b) <= 0 if type(a) not in (int, SI) else E.le(a, b)


def plt(E, a, b):
    a, b = d1(a), d1(b)
    if type(a) is FV:
        return E.frel("Lt", a, b)
    return E.cmp(a, b) < 0 if type(a) not in (int, SI) else E.le(a, b, -1)


@model("std::ops::RangeInclusive::<Idx>::contains", "std::ops::Range::<Idx>::contains", "std::ops::RangeTo::<Idx>::contains",
       "std::ops::RangeFrom::<Idx>::contains", "std::ops::RangeToInclusive::<Idx>::contains",
       "std::ops::RangeBounds::contains")
def _rcontains(E, a, ci):
    r = d1(a[0])
    k = range_kind(E, r)
    x = a[1]
    if k == "RangeInclusive":
        if r.f[2] is not False:
            raise Undecided("exhausted range")
        return ple(E, r.f[0], x) and ple(E, x, r.f[1])
    if k == "Range":
        return ple(E, r.f[0], x) and plt(E, x, r.f[1])
    if k == "RangeFrom":
        return ple(E, r.f[0], x)
    if k == "RangeTo":
        return plt(E, x, r.f[0])
    if k == "RangeToInclusive":
        return ple(E, x, r.f[0])
    raise Undecided("contains on %s" % k)


@model("std::ops::RangeInclusive::<Idx>::new")
def _rinew(E, a, ci):
    return Agg(ci.dest, 0, [a[0], a[1], False])


@model("std::ops::RangeInclusive::<Idx>::start", "std::ops::RangeInclusive::<Idx>::end")
def _rse(E, a, ci):
    return Ref(d1(a[0]).f, 0 if ci.decl.endswith("start") else 1)


@model("std::ops::RangeInclusive::<Idx>::into_inner")
def _rinner(E, a, ci):
    return tup(a[0].f[0], a[0].f[1])


@model("std::ops::RangeInclusive::<Idx>::is_empty", "std::ops::Range::<Idx>::is_empty")
def _rempty(E, a, ci):
    r = d1(a[0])
    if len(r.f) > 2:
        return not ple(E, r.f[0], r.f[1])
    return not plt(E, r.f[0], r.f[1])


# ------------------------------------------------------------- conversions
def intlike(ti):
    return ti["k"] in ("int", "uint", "char", "bool")


def conv(E, v, st, dt):
    """infallible From/Into between std types; NotImplemented if local"""
    s, d = E.p.types[st], E.p.types[dt]
    sn, dn = tn(E, strip_ref(E, st)), tn(E, dt)
    if st == dt:
        return v
    if intlike(s) and intlike(d):
        return int(v) if type(v) is bool else v
    if dn == "String" and sn in ("str", "String", "Box", "Cow"):
        return StringV(text(v))
    if dn == "String" and sn == "char":
        c = E.conc(d1(v))
        return StringV(chr(c) if c is not None else SymStr(E.fresh("char")))
    if dn == "Box":
        a = E.p.types[d["args"][0]]
        if a["k"] == "dyn":
            return BoxV(v)
        if a["k"] == "str":
            return BoxV(text(v))
        if a["k"] == "slice":
            y = d1(v)
            return BoxV(SliceRef(y.l) if type(y) is VecV and type(y.l) is list else (y.l if type(y) is VecV else y))
        if d["args"][0] == st:
            return BoxV(v)
    if dn == "Vec" and sn in ("slice", "array", "str", "String", "Vec", "VecDeque", "Box"):
        y = d1(v)
        if type(y) is BoxV:
            y = y.f[0]
        if type(y) is StringV:
            y = y.v
        if type(y) in (str, SymStr):
            return VecV(strbytes(E, y))
        if type(y) is SymBytes:
            return VecV(y)
        if s["k"] == "ref":
            l, a, n = seq(E, y)
            return VecV([deep(E, x) for x in l[a:a + n]])
        l, a, n = seq(E, y)
        return VecV(l[a:a + n]) if type(l) is list else VecV(l)
    if dn == "VecDeque" and sn in ("Vec", "array"):
        l, a, n = seq(E, d1(v))
        return VecV(l[a:a + n])
    if dn in ("BTreeMap", "HashMap") and sn in ("array", "Vec"):
        return from_iter(E, as_iter(E, v), dt)
    if dn == "Option" and d["args"][0] == st:
        return some(v)
    if dn in ("Rc", "Arc"):
        return RcV(v)
    if dn == "Cow":
        return Agg(dt, 0 if s["k"] == "ref" else 1, [v])
    if d["k"] == "float" and s["k"] in ("int", "uint"):
        c = E.conc(v)
        if c is not None:
            return FV(bits=ops.fbits(float(c)))
        raise Undecided("int to float")
    if d["k"] == "float" and s["k"] == "float":
        return v
    return NotImplemented


@model("std::convert::Into::into")
def _into(E, a, ci):
    return conv(E, a[0], ci.ta[0], ci.ta[1])


@model("std::convert::From::from")
def _from(E, a, ci):
    r = conv(E, a[0], ci.ta[1], ci.ta[0])
    return r


def tryconv(E, v, st, dt):
    s, d = E.p.types[st], E.p.types[dt]
    if intlike(s) and intlike(d):
        if d["k"] == "char":
            lo, hi = 0, 0x10ffff
            if E.le(0, v) and E.le(v, 0x10ffff):
                if E.le(0xd800, v) and E.le(v, 0xdfff):
                    return err(Obj("charerr"))
                return ok(v)
            return err(Obj("charerr"))
        lo, hi = ops.rng(d)
        v = int(v) if type(v) is bool else v
        if E.le(lo, v) and E.le(v, hi):
            return ok(v)
        return err(Agg(None, 0, [unit()]))
    if d["k"] == "array" and tn(E, strip_ref(E, st)) in ("slice", "Vec"):
        l, a, n = seq(E, d1(v))
        if type(l) is list and str(n) == str(d["n"]):
            return ok(Agg(dt, 0, [deep(E, x) for x in l[a:a + n]]))
        if type(l) is list:
            return err(Obj("tryfromslice"))
    return NotImplemented


@model("std::convert::TryInto::try_into")
def _try_into(E, a, ci):
    return tryconv(E, a[0], ci.ta[0], ci.ta[1])


@model("std::convert::TryFrom::try_from")
def _try_from(E, a, ci):
    return tryconv(E, a[0], ci.ta[1], ci.ta[0])


# ------------------------------------------------------------- Try
@model("std::ops::Try::branch")
def _branch(E, a, ci):
    x = E.force(a[0])
    n = tn(E, ci.ta[0])
    if n == "Option":
        return Agg(None, 0, [x.f[0]]) if x.var == 1 else Agg(None, 1, [none()])
    if n == "Result":
        return Agg(None, 0, [x.f[0]]) if x.var == 0 else Agg(None, 1, [Agg(None, 1, [x.f[0]])])
    return NotImplemented


@model("std::ops::FromResidual::from_residual")
def _from_residual(E, a, ci):
    n = tn(E, ci.ta[0])
    if n == "Option":
        return none()
    if n == "Result" and len(ci.ta) > 1:
        st = E.p.types[ci.ta[1]]
        if st["k"] == "adt" and st["name"].endswith("Result"):
            et, ft = E.p.types[ci.ta[0]]["args"][1], st["args"][1]
            if et == ft:
                return err(a[0].f[0])
    return NotImplemented


# ------------------------------------------------------------- strings
@model("std::string::ToString::to_string")
def _to_string(E, a, ci):
    y = d1(a[0])
    if type(y) in (str, SymStr, StringV) or (type(y) in (BoxV, RcV) and type(y.f[0]) in (str, SymStr, StringV)):
        return StringV(text(y))
    if type(y) is int and tn(E, strip_ref(E, ci.ta[0])) == "char":
        return StringV(chr(y))
    return StringV(SymStr(E.fresh("fmt")))


@model("std::string::String::new", "std::string::String::with_capacity")
def _strnew(E, a, ci):
    return StringV("")


@model("std::string::String::push_str", "std::string::String::push")
def _push_str(E, a, ci):
    s = d1(a[0])
    s.v = concat(E, [s.v, a[1]])
    return unit()


@model("std::str::<impl str>::to_string", "std::str::<impl str>::into_string", "std::str::<impl str>::to_owned",
       "std::string::String::from_utf8_lossy")
def _str2string(E, a, ci):
    return StringV(text(a[0]))


@model("std::str::<impl str>::to_lowercase", "std::str::<impl str>::to_uppercase", "core::str::<impl str>::to_ascii_lowercase",
       "std::str::<impl str>::to_ascii_lowercase", "std::str::<impl str>::to_ascii_uppercase", "std::str::<impl str>::replace",
       "std::str::<impl str>::repeat")
def _strfn(E, a, ci):
    s = text(a[0])
    n = ci.decl.split("::")[-1]
    if isinstance(s, str) and len(a) == 1:
        return StringV(s.lower() if "lower" in n else s.upper())
    if isinstance(s, str) and n == "replace" and all(isinstance(text(x), str) for x in a[1:]):
        return StringV(s.replace(text(a[1]), text(a[2])))
    key = (n, E.rep(s)) + tuple(E.rep(text(x)) if type(x) not in (int, SI) else repr(x) for x in a[1:])
    return StringV(SymStr(("f",) + key))


@model("core::str::<impl str>::trim", "core::str::<impl str>::trim_start", "core::str::<impl str>::trim_end")
def _trim(E, a, ci):
    s = text(a[0])
    if isinstance(s, str):
        n = ci.decl.split("::")[-1]
        return s.strip() if n == "trim" else s.lstrip() if n == "trim_start" else s.rstrip()
    return SymStr(("trim", E.rep(s)))


@model("core::str::<impl str>::eq_ignore_ascii_case")
def _eqic(E, a, ci):
    x, y = text(a[0]), text(a[1])
    if isinstance(x, str) and isinstance(y, str):
        return x.lower() == y.lower()
    if E.streq(x, y):
        return True
    return bool(E.fact(("eqic", str(E.rep(x)), str(E.rep(y)))) == 0)


@model("core::str::<impl str>::starts_with", "core::str::<impl str>::ends_with", "core::str::<impl str>::contains")
def _strpred(E, a, ci):
    s = text(a[0])
    p = d1(a[1])
    n = ci.decl.split("::")[-1]
    if type(p) in (int, SI):
        p = chr(E.concretize(p))
    elif type(p) in (str, SymStr, StringV):
        p = text(p)
    else:
        raise Undecided("str pattern")
    if isinstance(s, str) and isinstance(p, str):
        return s.startswith(p) if n == "starts_with" else s.endswith(p) if n == "ends_with" else p in s
    if not isinstance(s, str) and isinstance(E.rep(s), str) and isinstance(p, str):
        return _strpred(E, [E.rep(s), p], ci)
    return E.fact((n, str(E.rep(s)), str(p))) == 0


@model("core::str::<impl str>::chars", "core::str::<impl str>::bytes")
def _chars(E, a, ci):
    s = text(a[0])
    if isinstance(s, str):
        return list_vals([ord(c) for c in s] if ci.decl.endswith("chars") else list(s.encode()))
    return SymChars(s, ci.decl.endswith("chars"))


class SymChars(IterV):
    __slots__ = ("s", "kind")

    def __init__(self, s, kind):
        self.s, self.kind = s, kind

        def nx(E):
            raise Undecided("characters of symbolic text")
        self.nxt, self.back, self.rem = nx, None, None


_old_count = M["std::iter::Iterator::count"]


@model("std::iter::Iterator::count", "std::iter::ExactSizeIterator::len")
def _count2(E, a, ci):
    x = d1(a[0])
    if type(x) is SymChars:
        if not x.kind:
            return E.strlen(x.s)
        k = ("chars", str(E.rep(x.s)))
        if k not in E.facts:
            n = E.int_var(0, (1 << 63) - 1)
            b = E.strlen(x.s)
            vb, ob = E.vo(b)
            E.z.add(n.v, vb, ob)     # chars <= bytes
            E.facts[k] = n
        return E.facts[k]
    return _old_count(E, a, ci)


@model("core::str::<impl str>::char_indices")
def _char_indices(E, a, ci):
    s = text(a[0])
    if not isinstance(s, str):
        raise Undecided("characters of symbolic text")
    out, k = [], 0
    for c in s:
        out.append(tup(k, ord(c)))
        k += len(c.encode())
    return list_vals(out)


# ------------------------------------------------------------- integers
def _intty(E, ci):
    return E.p.types[ci.argt[0]] if ci.argt and ci.argt[0] is not None else None


for _t in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"):
    _w = {"usize": 64, "isize": 64}.get(_t) or int(_t[1:])
    _ti = {"k": "uint" if _t[0] == "u" else "int", "bits": _w}
    _P = "core::num::<impl %s>::" % _t

    def _lz(E, a, ci, w=_w):
        x = a[0]
        c = E.conc(x)
        if c is None:
            lo, hi = E.bounds(x)
            if lo is None or lo < 0:
                raise Undecided("leading_zeros")
            k0, k1 = lo.bit_length(), hi.bit_length()
            k = k0 + E.choose(k1 - k0 + 1, "bit length")
            v, o = E.vo(x)
            if k and not E.z.add(0, v, o - (1 << (k - 1))):
                raise Infeasible()
            if not E.z.add(v, 0, (1 << k) - 1 - o):
                raise Infeasible()
            return w - k
        return w - (c & ((1 << w) - 1)).bit_length()
    M[_P + "leading_zeros"] = _lz

    def _ilog2(E, a, ci, w=_w):
        return w - 1 - _lz(E, a, ci, w)
    M[_P + "ilog2"] = _ilog2

    def _checked(op, ti=_ti):
        def f(E, a, ci):
            if op in ("Shl", "Shr"):
                r = ops.cbinop(E, op, a[0], a[1], ti)
                return none() if r.f[1] else some(r.f[0])
            if op in ("Div", "Rem"):
                if E.ieq(a[1], 0):
                    return none()
                return some(ops.bits(E, op, a[0], a[1], ti))
            if op == "Neg":
                x = E.conc(a[0])
                r = -x if x is not None else ops.neg(E, a[0])
                return some(r) if ops.inrange(E, r, ti) == 0 else none()
            if op == "Pow":
                b, e = E.concretize(a[0]), E.concretize(a[1], 1000)
                if b > 1 and e > 200:
                    return none()
                r = b ** e
                lo, hi = ops.rng(ti)
                return some(r) if lo <= r <= hi else none()
            r = ops.cbinop(E, op, a[0], a[1], ti)
            return none() if r.f[1] else some(r.f[0])
        return f
    for _o, _n in (("Add", "checked_add"), ("Sub", "checked_sub"), ("Mul", "checked_mul"), ("Shl", "checked_shl"),
                   ("Shr", "checked_shr"), ("Div", "checked_div"), ("Rem", "checked_rem"), ("Neg", "checked_neg"),
                   ("Pow", "checked_pow"), ("Sub", "checked_sub_unsigned"), ("Add", "checked_add_unsigned"),
                   ("Add", "checked_add_signed")):
        M[_P + _n] = _checked(_o)

    def _wrapping(op, ti=_ti):
        def f(E, a, ci):
            r = ops.cbinop(E, op, a[0], a[1], ti)
            return r.f[0]
        return f
    for _o, _n in (("Add", "wrapping_add"), ("Sub", "wrapping_sub"), ("Mul", "wrapping_mul")):
        M[_P + _n] = _wrapping(_o)

    def _over(op, ti=_ti):
        return lambda E, a, ci: ops.cbinop(E, op, a[0], a[1], ti)
    for _o, _n in (("Add", "overflowing_add"), ("Sub", "overflowing_sub"), ("Mul", "overflowing_mul")):
        M[_P + _n] = _over(_o)

    def _sat(op, ti=_ti):
        def f(E, a, ci):
            lo, hi = ops.rng(ti)
            if op == "Pow":
                b, e = E.concretize(a[0]), E.concretize(a[1], 1000)
                r = b ** min(e, 300)
            else:
                r = ops.raw(E, op, a[0], a[1])
                if r is None:
                    raise Undecided("nonlinear")
            if not E.le(lo, r):
                return lo
            if not E.le(r, hi):
                return hi
            return r
        return f
    for _o, _n in (("Add", "saturating_add"), ("Sub", "saturating_sub"), ("Mul", "saturating_mul"), ("Pow", "saturating_pow")):
        M[_P + _n] = _sat(_o)

    def _pow(E, a, ci, ti=_ti):
        b, e = E.concretize(a[0]), E.concretize(a[1], 1000)
        r = b ** min(e, 300)
        lo, hi = ops.rng(ti)
        if not lo <= r <= hi:
            raise Panic("pow overflow", E.where())
        return r
    M[_P + "pow"] = _pow

    def _divceil(E, a, ci, ti=_ti):
        c = E.conc(a[1])
        if c is None:
            raise Undecided("div_ceil")
        if c == 0:
            raise Panic("division by zero", E.where())
        x = E.conc(a[0])
        if x is not None:
            return -(-x // c)
        return ops.bits(E, "Div", ops.raw(E, "Add", a[0], c - 1), c, {"k": "uint", "bits": 128})
    M[_P + "div_ceil"] = _divceil

    def _abs(E, a, ci, ti=_ti, un="unsigned_abs"):
        if E.le(0, a[0]):
            return a[0]
        x = E.conc(a[0])
        r = -x if x is not None else ops.neg(E, a[0])
        if not ci.decl.endswith("unsigned_abs") and ops.inrange(E, r, ti):
            raise Panic("abs overflow", E.where())
        return r
    M[_P + "unsigned_abs"] = _abs
    M[_P + "abs"] = _abs
    M[_P + "is_negative"] = lambda E, a, ci: E.le(a[0], -1)
    M[_P + "is_positive"] = lambda E, a, ci: E.le(1, a[0])

    def _asc(name):
        return lambda E, a, ci: char_pred(E, name, d1(a[0]))
    if _t == "u8":
        for _n in ("is_ascii_digit", "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii_hexdigit", "is_ascii_whitespace",
                   "is_ascii_uppercase", "is_ascii_lowercase", "is_ascii_punctuation", "is_ascii_graphic", "is_ascii",
                   "is_ascii_control"):
            M[_P + _n] = _asc(_n)


@model("core::num::<impl f64>::is_nan")
def _isnan(E, a, ci):
    return E.is_nan(a[0])


# chars as sets of code points -------------------------------------------
CH = {
    "is_ascii_digit": [(48, 57)], "is_ascii_alphabetic": [(65, 90), (97, 122)],
    "is_ascii_alphanumeric": [(48, 57), (65, 90), (97, 122)], "is_ascii_hexdigit": [(48, 57), (65, 70), (97, 102)],
    "is_ascii_whitespace": [(9, 10), (12, 13), (32, 32)], "is_ascii_uppercase": [(65, 90)], "is_ascii_lowercase": [(97, 122)],
    "is_ascii_punctuation": [(33, 47), (58, 64), (91, 96), (123, 126)], "is_ascii_graphic": [(33, 126)],
    "is_ascii": [(0, 127)], "is_ascii_control": [(0, 31), (127, 127)],
}


def in_ranges(E, c, rs):
    for lo, hi in rs:
        if E.le(lo, c) and E.le(c, hi):
            return True
    return False


def char_pred(E, name, c):
    return in_ranges(E, c, CH[name])


for _n in CH:
    M["std::char::methods::<impl char>::" + _n] = (lambda nm: lambda E, a, ci: char_pred(E, nm, d1(a[0])))(_n)
    M["core::char::methods::<impl char>::" + _n] = M["std::char::methods::<impl char>::" + _n]


@model("std::char::methods::<impl char>::is_digit")
def _is_digit(E, a, ci):
    r = E.concretize(a[1])
    rs = [(48, 47 + min(r, 10))]
    if r > 10:
        rs += [(65, 54 + r), (97, 86 + r)]
    return in_ranges(E, a[0], rs)


@model("std::char::methods::<impl char>::len_utf8")
def _len_utf8(E, a, ci):
    c = a[0]
    if E.le(c, 0x7f):
        return 1
    if E.le(c, 0x7ff):
        return 2
    return 3 if E.le(c, 0xffff) else 4


UWIT = (0xe9, 0xc9, 0x660, 0xa0, 0x85, 0xb2, 0x4e2d, 0x2028, 0xd7, 0x1f600, 0x10400, 0x1d7ce, 0x3000, 0x80)
UWS = {0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000} | set(range(0x2000, 0x200b))
ASC = {"is_alphabetic": "is_ascii_alphabetic", "is_alphanumeric": "is_ascii_alphanumeric", "is_numeric": "is_ascii_digit",
       "is_control": "is_ascii_control", "is_uppercase": "is_ascii_uppercase", "is_lowercase": "is_ascii_lowercase"}


def uni_known(name, c):
    """the property of one code point"""
    import unicodedata
    if c < 128:
        return any(lo <= c <= hi for lo, hi in ([(9, 13), (32, 32)] if name == "is_whitespace" else CH[ASC[name]]))
    ch, cat = chr(c), unicodedata.category(chr(c))
    if name == "is_whitespace":
        return c in UWS
    if name == "is_control":
        return cat == "Cc"
    if name == "is_numeric":
        return cat in ("Nd", "Nl", "No")
    if name in ("is_alphabetic", "is_alphanumeric"):
        if cat[0] == "L" or cat == "Nl":
            return True
        if cat[0] == "M" or cat in ("So", "Cn"):
            raise Undecided("unicode property")
        return name == "is_alphanumeric" and cat[0] == "N"
    if cat == "Cn":
        raise Undecided("unicode property")
    return ch.isupper() if name == "is_uppercase" else ch.islower()


def _uni(name):
    def f(E, a, ci):
        x = d1(a[0])
        c = E.conc(x)
        if c is not None:
            return uni_known(name, c)
        if E.le(x, 127):
            return in_ranges(E, x, [(9, 13), (32, 32)] if name == "is_whitespace" else CH[ASC[name]])
        lo, hi = E.bounds(x)
        wit = []
        for want in (True, False):
            for w in UWIT:
                if lo <= w <= hi and uni_known(name, w) == want:
                    wit.append((want, w))
                    break
        # one known member and one known non-member, exactly; the rest stay a guess
        k = E.choose(len(wit) + 1, name)
        if k < len(wit):
            if not E.ieq_assume(x, wit[k][1]):
                raise Infeasible()
            return wit[k][0]
        E.imprecise = "unicode property"
        return E.choose(2, name) == 0
    return f


for _n in ("is_alphabetic", "is_alphanumeric", "is_numeric", "is_whitespace", "is_control", "is_uppercase", "is_lowercase"):
    M["std::char::methods::<impl char>::" + _n] = _uni(_n)


# ------------------------------------------------------------- formatting (opaque)
def opaque_fmt(E, a, ci):
    return Obj("fmt")


for _n in ("core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_display",
           "core::fmt::rt::Argument::<'_>::new_lower_hex", "core::fmt::rt::Argument::<'_>::new_upper_hex",
           "core::fmt::rt::Argument::<'_>::from_usize", "std::fmt::Arguments::<'a>::new",
           "core::fmt::rt::<impl std::fmt::Arguments<'_>>::new_v1", "std::fmt::Arguments::<'a>::new_const"):
    M[_n] = opaque_fmt


@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
def _args_from_str(E, a, ci):
    return Obj("fmt", s=a[0])


@model("std::fmt::format", "alloc::fmt::format", "std::fmt::format::format_inner")
def _format(E, a, ci):
    x = a[0]
    if type(x) is Obj and "s" in x.d:
        return StringV(x.d["s"])
    return StringV(SymStr(E.fresh("fmt")))


@model("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'a>::pad",
       "std::fmt::Display::fmt", "std::fmt::Debug::fmt", "std::fmt::Write::write_str", "std::fmt::Write::write_fmt")
def _write(E, a, ci):
    y = d1(a[0])
    if type(y) is StringV:
        y.v = SymStr(E.fresh("fmt"))
    return ok(unit())


@model("std::fmt::Arguments::<'_>::as_str", "std::fmt::Arguments::<'a>::as_str")
def _as_str_args(E, a, ci):
    return none()


# ------------------------------------------------------------- callables
@model("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")
def _call(E, a, ci):
    return E.call_value(a[0], list(a[1].f))


@model("std::result::Result::<T, E>::map_err")
def _map_err(E, a, ci):
    r = E.force(a[0])
    if r.var == 0:
        return r
    return err(E.call_value(a[1], [r.f[0]]))


@model("std::option::Option::<T>::unwrap", "std::option::Option::<T>::expect", "std::result::Result::<T, E>::unwrap",
       "std::result::Result::<T, E>::expect")
def _unwrap(E, a, ci):
    r = E.force(a[0])
    good = 1 if "option" in ci.decl else 0
    if r.var == good:
        return r.f[0]
    raise Panic(ci.decl.split("::")[-1], E.where())


@model("std::option::Option::<T>::unwrap_or_default", "std::result::Result::<T, E>::unwrap_or_default")
def _unwrap_or_default(E, a, ci):
    r = E.force(a[0])
    good = 1 if "option" in ci.decl else 0
    return r.f[0] if r.var == good else default(E, ci.ta[0])


@model("std::option::Option::<T>::as_ref", "std::option::Option::<T>::as_mut")
def _as_ref(E, a, ci):
    r = E.force(d1(a[0]))
    return some(Ref(r.f, 0)) if r.var == 1 else none()


@model("std::result::Result::<T, E>::as_ref", "std::result::Result::<T, E>::as_mut")
def _ras_ref(E, a, ci):
    r = E.force(d1(a[0]))
    return Agg(None, r.var, [Ref(r.f, 0)])


@model("std::option::Option::<T>::as_deref", "std::option::Option::<T>::as_deref_mut")
def _as_deref(E, a, ci):
    r = E.force(d1(a[0]))
    if r.var == 0:
        return none()
    return some(_deref(E, [Ref(r.f, 0)], ci_plain))


@model("std::slice::from_ref", "core::slice::from_ref")
def _from_ref(E, a, ci):
    x = a[0]
    return SliceRef(x.b, x.k, 1)


class _P:
    dest = None
    ta = []
    decl = ""


ci_plain = _P()


@model("std::intrinsics::discriminant_value")
def _dv(E, a, ci):
    return E.discr(d1(a[0]))


@model("std::intrinsics::ub_checks", "std::intrinsics::size_of")
def _ub(E, a, ci):
    return False


@model("std::mem::size_of")
def _szof(E, a, ci):
    ti = E.p.types[ci.ta[0]]
    if ti["k"] in ("int", "uint"):
        return ti["bits"] // 8
    raise Undecided("size_of")
