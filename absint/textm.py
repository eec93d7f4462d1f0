"""Texts made of known and symbolic characters.

A text is a SymStr whose info carries ("tx": (base, a, b)): the characters
[a, b) of a shared base.  Each character is a code point (int) or a zone
variable whose UTF-8 length class is fixed when it is created, so that byte
offsets are known numbers.  Comparisons against characters partition the
trace; nothing is enumerated."""
from . import core, models, ops
from .core import (Agg, BoxV, RcV, Ref, SliceRef, StringV, SymStr, SymBytes, VecV, SI, FV, FnV, PyFn, Obj, IterV, Undecided, Panic,
                   STOP, tup, some, none, ok, err, Engine, Infeasible)
from .models import M, LI, d1, text, list_vals, range_kind, in_ranges


class Base:
    __slots__ = ("id", "c", "bl", "off", "ix", "by")

    def __init__(self, id, cells, bl):
        self.id, self.c, self.bl = id, cells, bl
        self.off = [0]
        for n in bl:
            self.off.append(self.off[-1] + n)
        self.ix = {o: i for i, o in enumerate(self.off)}
        self.by = None


def u8len(c):
    return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4


LEAD = {2: (0xc2, 0xdf), 3: (0xe0, 0xef), 4: (0xf0, 0xf4)}
CLS = {1: (0, 0x7f), 2: (0x80, 0x7ff), 3: (0x800, 0xffff), 4: (0x10000, 0x10ffff)}


def blen(E, c):
    if type(c) is int:
        return u8len(c)
    lo, hi = E.bounds(c)
    for n, (a, b) in CLS.items():
        if a <= lo and hi <= b:
            return n
    if E.le(c, 0x7f):
        return 1
    if E.le(c, 0x7ff):
        return 2
    return 3 if E.le(c, 0xffff) else 4


def mktext(E, cells):
    """a new text; python str when fully known"""
    if all(type(c) is int for c in cells):
        return "".join(map(chr, cells))
    b = Base(E.fresh("text"), list(cells), [blen(E, c) for c in cells])
    return sl(b, 0, len(cells))


def input_text(E, cells, id="input"):
    """a text with an address, known or not"""
    return sl(Base(id, list(cells), [blen(E, c) for c in cells]), 0, len(cells))


def sl(b, a, n):
    return SymStr(("tx", b.id, a, n), {"tx": (b, a, n)})


def tx(s):
    if type(s) is SymStr and type(s.info) is dict:
        return s.info.get("tx")
    return None


def cells(s):
    """code points of a known or text-backed string; None when opaque"""
    if type(s) is str:
        return [ord(c) for c in s]
    t = tx(s)
    if t is None:
        return None
    return t[0].c[t[1]:t[2]]


def ckey(cs):
    return tuple(c if type(c) is int else ("v", c.v, c.o) for c in cs)


def known(s):
    cs = cells(s)
    if cs is None or any(type(c) is not int for c in cs):
        return None
    return "".join(map(chr, cs))


# ------------------------------------------------------------- engine hooks
_rep, _streq, _strcmp, _strlen = Engine.rep, Engine.streq, Engine.strcmp, Engine.strlen


def rep(self, s):
    if type(s) is SymStr and type(s.info) is dict and "tx" in s.info:
        cs = cells(s)
        if all(type(c) is int for c in cs):
            return "".join(map(chr, cs))
        k = ("tx", ckey(cs))
        if not hasattr(self, "txc"):
            self.txc = {}
        self.txc[k] = cs
        return k
    return _rep(self, s)


def kcells(self, k):
    """code points of a representative"""
    if isinstance(k, str):
        return [ord(c) for c in k]
    return getattr(self, "txc", {}).get(k)


def cells_eq(self, x, y):
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        if p is not q and not self.ieq(p, q):
            return False
    return True


def streq(self, a, b):
    x, y = self.rep(a), self.rep(b)
    if isinstance(x, str) and isinstance(y, str):
        return x == y
    cx, cy = kcells(self, x), kcells(self, y)
    if cx is not None and cy is not None:
        return cells_eq(self, cx, cy)
    if cx is not None:
        a, b, x, y = b, a, y, x
        cx, cy = cy, cx
    r = _streq(self, a, b)
    if r and cy is not None and not isinstance(y, str):
        # what the opaque string differed from, the text now differs from
        for p, q in list(self.sne):
            o = q if p == y else p if q == y else None
            co = kcells(self, o) if o is not None else None
            if co is not None and cells_eq(self, cy, co):
                raise Infeasible()
    return r


def strcmp(self, a, b):
    if tx(a) is not None or tx(b) is not None:
        x, y = cells(a), cells(b)
        if x is not None and y is not None:
            for p, q in zip(x, y):
                c = 0 if p is q else self.cmp(p, q)
                if c:
                    return c
            return (len(x) > len(y)) - (len(x) < len(y))
    return _strcmp(self, a, b)


def strlen(self, s):
    t = tx(s)
    if t is not None:
        return t[0].off[t[2]] - t[0].off[t[1]]
    return _strlen(self, s)


Engine.rep, Engine.streq, Engine.strcmp, Engine.strlen = rep, streq, strcmp, strlen


# ------------------------------------------------------------- views
PtrI = ops.PtrI


def tbytes(E, s):
    t = tx(s)
    if t is None:
        return None
    b = t[0]
    if b.by is None:
        by = []
        for i, c in enumerate(b.c):
            n = b.bl[i]
            if type(c) is int:
                by += list(chr(c).encode("utf-8", "surrogatepass"))
            elif n == 1:
                by.append(c)
            else:
                key = ("utf8",) + ckey([c])[0]
                if key not in E.facts:
                    E.facts[key] = [E.int_var(*LEAD[n])] + [E.int_var(0x80, 0xbf) for _ in range(n - 1)]
                by += E.facts[key]
        b.by = by
    return b.by, b.off[t[1]], b.off[t[2]]


_old_strbytes_ref, _old_strbytes = models.strbytes_ref, models.strbytes


def strbytes_ref(E, s):
    t = tbytes(E, s)
    if t is None:
        return _old_strbytes_ref(E, s)
    by, a, n = t
    return SliceRef(by, a, n - a)


def strbytes(E, s):
    t = tbytes(E, s)
    if t is None:
        return _old_strbytes(E, s)
    by, a, n = t
    return by[a:n]


models.strbytes_ref, models.strbytes = strbytes_ref, strbytes


def cut(E, s, lo, hi, panic=True):
    """s[lo..hi] by byte offsets"""
    lo, hi = E.concretize(lo), E.concretize(hi)
    t = tx(s)
    if t is None:
        n = len(s.encode())
        if not 0 <= lo <= hi <= n:
            return None
        b = s.encode()
        try:
            b[:lo].decode()
            return b[lo:hi].decode()
        except UnicodeDecodeError:
            return None
    b, a, n = t
    o = b.off[a]
    if not 0 <= lo <= hi <= b.off[n] - o:
        return None
    i, j = b.ix.get(o + lo), b.ix.get(o + hi)
    if i is None or j is None:
        return None
    return sl(b, i, j)


def str_slice(E, s, r):
    if type(s) is not str and tx(s) is None:
        raise Undecided("slice of symbolic text")
    n = E.strlen(s)
    lo, hi = models.range_bounds(E, r, n)
    x = cut(E, s, lo, hi)
    if x is None:
        raise Panic("str slice out of range or not on a char boundary", E.where())
    return x


models.str_slice = str_slice


def concat(E, parts):
    out = []
    for p in parts:
        p = d1(p)
        if type(p) in (int, SI):
            out.append(p)
            continue
        c = cells(text(p))
        if c is None:
            return SymStr(E.fresh("concat"))
        out += c
    return mktext(E, out)


models.concat = concat


# ------------------------------------------------------------- patterns
def matcher(E, p):
    """pattern -> (fn(cells, i) -> matched length or -1)"""
    p = d1(p)
    if type(p) in (BoxV, RcV):
        p = d1(p.f[0])
    if type(p) in (int, SI):
        return lambda cs, i: 1 if i < len(cs) and E.ieq(cs[i], p) else -1
    if type(p) in (str, SymStr, StringV):
        q = cells(text(p))
        if q is None:
            raise Undecided("opaque pattern")

        def m(cs, i):
            if i + len(q) > len(cs):
                return -1
            return len(q) if all(E.ieq(cs[i + k], q[k]) for k in range(len(q))) else -1
        return m
    l = E.aslist(p)
    if type(l) is list:
        return lambda cs, i: 1 if i < len(cs) and any(E.ieq(cs[i], x) for x in l) else -1
    if type(p) in (FnV, PyFn, Agg):
        return lambda cs, i: 1 if i < len(cs) and E.call_value(p, [cs[i]]) else -1
    raise Undecided("str pattern %s" % type(p).__name__)


def offs(E, s):
    t = tx(s)
    if t is not None:
        b, a, n = t
        return [b.off[i] - b.off[a] for i in range(a, n + 1)]
    o = [0]
    for c in s:
        o.append(o[-1] + len(c.encode()))
    return o


def part(s, i, j):
    t = tx(s)
    if t is None:
        return s[i:j]
    return sl(t[0], t[1] + i, t[1] + j)


ST = "core::str::<impl str>::"


def tmodel(*names):
    """model on known or text-backed receivers; other receivers use the earlier model"""
    def d(f):
        for n in names:
            old = M.get(n)

            def g(E, a, ci, old=old):
                s = a[0]
                try:
                    s = text(a[0])
                except Undecided:
                    s = None
                if s is not None and (type(s) is str or tx(s) is not None):
                    r = f(E, s, a, ci)
                    if r is not NotImplemented:
                        return r
                if old is None:
                    raise Undecided("unmodelled %s" % ci.decl)
                return old(E, a, ci)
            M[n] = g
        return f
    return d


def charv(E, s):
    return cells(s)


@tmodel(ST + "chars")
def _chars(E, s, a, ci):
    return Chars(E, s)


@tmodel(ST + "bytes")
def _bytes(E, s, a, ci):
    t = tbytes(E, s)
    return list_vals(t[0][t[1]:t[2]] if t else list(s.encode()))


class Chars(LI):
    """str::Chars with as_str"""
    __slots__ = ("s",)

    def __init__(self, E, s):
        cs = cells(s)
        LI.__init__(self, lambda E, i: cs[i], len(cs))
        self.s = s

    def copy(self):
        z = Chars(None, self.s)
        z.get, z.lo, z.hi = self.get, self.lo, self.hi
        return z


@tmodel(ST + "char_indices")
def _char_indices(E, s, a, ci):
    cs, o = cells(s), offs(E, s)
    r = Chars(E, s)
    r.get = lambda E, i: tup(o[i], cs[i])
    return r


def _as_str(E, a, ci):
    x = d1(a[0])
    if type(x) is Chars:
        return part(x.s, x.lo, x.hi)
    raise Undecided("as_str")


M["std::str::Chars::<'a>::as_str"] = _as_str
M["std::str::CharIndices::<'a>::as_str"] = _as_str


@tmodel(ST + "as_ptr")
def _as_ptr(E, s, a, ci):
    t = tx(s)
    if t is None:
        return PtrI(("const", s), 0)
    return PtrI(t[0], t[0].off[t[1]])


@tmodel(ST + "find", ST + "rfind")
def _find(E, s, a, ci):
    m, cs, o = matcher(E, a[1]), cells(s), offs(E, s)
    r = range(len(cs) + 1)
    for i in (reversed(r) if ci.decl.endswith("rfind") else r):
        if m(cs, i) >= 0:
            return some(o[i])
    return none()


@tmodel(ST + "contains")
def _contains(E, s, a, ci):
    m, cs = matcher(E, a[1]), cells(s)
    return any(m(cs, i) >= 0 for i in range(len(cs) + 1))


def at_end(E, p, cs):
    p = d1(p)
    if type(p) in (str, SymStr, StringV):
        n = len(cells(text(p)))
    else:
        n = 1
    i = len(cs) - n
    return (i, matcher(E, p)(cs, i)) if i >= 0 else (i, -1)


@tmodel(ST + "starts_with", ST + "strip_prefix")
def _starts(E, s, a, ci):
    cs = cells(s)
    k = matcher(E, a[1])(cs, 0)
    if ci.decl.endswith("starts_with"):
        return k >= 0
    return some(part(s, k, len(cs))) if k >= 0 else none()


@tmodel(ST + "ends_with", ST + "strip_suffix")
def _ends(E, s, a, ci):
    cs = cells(s)
    i, k = at_end(E, a[1], cs)
    if ci.decl.endswith("ends_with"):
        return k >= 0
    return some(part(s, 0, i)) if k >= 0 else none()


@tmodel(ST + "split_once", ST + "rsplit_once")
def _split_once(E, s, a, ci):
    cs, m = cells(s), matcher(E, a[1])
    r = range(len(cs) + 1)
    for i in (reversed(r) if "rsplit" in ci.decl else r):
        k = m(cs, i)
        if k >= 0:
            return some(tup(part(s, 0, i), part(s, i + k, len(cs))))
    return none()


@tmodel(ST + "split", ST + "split_terminator")
def _split(E, s, a, ci):
    cs, m = cells(s), matcher(E, a[1])
    out, st, i = [], 0, 0
    while i <= len(cs):
        k = m(cs, i)
        if k > 0:
            out.append(part(s, st, i))
            i = st = i + k
        elif k == 0:
            raise Undecided("empty split pattern")
        else:
            i += 1
    out.append(part(s, st, len(cs)))
    return list_vals(out)


@tmodel(ST + "split_at", ST + "split_at_checked")
def _split_at(E, s, a, ci):
    n = E.strlen(s)
    x = cut(E, s, 0, a[1])
    if x is None:
        if ci.decl.endswith("checked"):
            return none()
        raise Panic("split_at not on a char boundary", E.where())
    r = tup(x, cut(E, s, a[1], n))
    return some(r) if ci.decl.endswith("checked") else r


@tmodel(ST + "get_unchecked", ST + "get")
def _getu(E, s, a, ci):
    n = E.strlen(s)
    lo, hi = models.range_bounds(E, a[1], n)
    x = cut(E, s, lo, hi)
    if ci.decl.endswith("get"):
        return some(x) if x is not None else none()
    if x is None:
        raise Panic("get_unchecked out of range", E.where())
    return x


@tmodel(ST + "is_char_boundary")
def _icb(E, s, a, ci):
    i = E.concretize(a[1])
    return cut(E, s, 0, i) is not None


WS = [(9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)]


@tmodel(ST + "trim", ST + "trim_start", ST + "trim_end", ST + "trim_matches", ST + "trim_start_matches", ST + "trim_end_matches")
def _trim(E, s, a, ci):
    n = ci.decl.split("::")[-1]
    cs = cells(s)
    m = matcher(E, a[1]) if len(a) > 1 else (lambda cs, i: 1 if i < len(cs) and in_ranges(E, cs[i], WS) else -1)
    i, j = 0, len(cs)
    if "end" not in n:
        while i < j and m(cs[:j], i) > 0:
            i += m(cs[:j], i)
    if "start" not in n:
        while j > i and m(cs, j - 1) > 0:
            j -= 1
    return part(s, i, j)


@tmodel(ST + "lines")
def _lines(E, s, a, ci):
    cs = cells(s)
    out, st = [], 0
    for i, c in enumerate(cs):
        if E.ieq(c, 10):
            e = i - 1 if i > st and E.ieq(cs[i - 1], 13) else i
            out.append(part(s, st, e))
            st = i + 1
    if st < len(cs):
        out.append(part(s, st, len(cs)))
    return list_vals(out)


@tmodel(ST + "is_ascii")
def _is_ascii(E, s, a, ci):
    return all(E.le(c, 0x7f) for c in cells(s))


@tmodel(ST + "eq_ignore_ascii_case")
def _eqic(E, s, a, ci):
    x, y = cells(s), cells(text(a[1]))
    if y is None:
        return NotImplemented
    return len(x) == len(y) and all(E.ieq(low(E, p), low(E, q)) for p, q in zip(x, y))


def low(E, c, up=False):
    lo, hi, d = (97, 122, -32) if up else (65, 90, 32)
    if E.le(lo, c) and E.le(c, hi):
        return models.addc(c, d)
    return c


for _n in ("to_ascii_lowercase", "to_ascii_uppercase"):
    for _p in ("std::char::methods::<impl char>::", "core::char::methods::<impl char>::"):
        M[_p + _n] = (lambda up: lambda E, a, ci: low(E, d1(a[0]), up))(_n.endswith("uppercase"))


@tmodel("std::str::<impl str>::to_ascii_lowercase", "core::str::<impl str>::to_ascii_lowercase", "std::str::<impl str>::to_ascii_uppercase")
def _lower(E, s, a, ci):
    return StringV(mktext(E, [low(E, c, ci.decl.endswith("uppercase")) for c in cells(s)]))


@tmodel("std::str::<impl str>::replace")
def _replace(E, s, a, ci):
    cs, m, w = cells(s), matcher(E, a[1]), cells(text(a[2]))
    if w is None:
        return NotImplemented
    out, i = [], 0
    while i < len(cs):
        k = m(cs, i)
        if k > 0:
            out += w
            i += k
        elif k == 0:
            return NotImplemented
        else:
            out.append(cs[i])
            i += 1
    return StringV(mktext(E, out))


@tmodel("std::str::<impl str>::repeat")
def _repeat(E, s, a, ci):
    return StringV(mktext(E, cells(s) * E.concretize(a[1])))


# String buffers
def _pushc(E, a, ci):
    s = d1(a[0])
    s.v = concat(E, [s.v, a[1]])
    return core.unit()


M["std::string::String::push"] = M["std::string::String::push_str"] = _pushc


@tmodel("std::string::String::pop")
def _pop(E, s, a, ci):
    cs = cells(s)
    o = d1(a[0])
    if not cs:
        return none()
    o.v = mktext(E, cs[:-1])
    return some(cs[-1])


@tmodel("std::string::String::insert", "std::string::String::insert_str")
def _sinsert(E, s, a, ci):
    i = E.concretize(a[1])
    d1(a[0]).v = concat(E, [cut(E, s, 0, i), a[2], cut(E, s, i, E.strlen(s))])
    return core.unit()


def _str_extend_wrap():
    old = M["std::iter::Extend::extend"]

    def f(E, a, ci):
        y = d1(a[0])
        if type(y) is StringV:
            y.v = concat(E, [y.v] + models.drain_all(E, models.as_iter(E, a[1])))
            return core.unit()
        return old(E, a, ci)
    M["std::iter::Extend::extend"] = f


_str_extend_wrap()


def _to_string_wrap():
    old = M["std::string::ToString::to_string"]

    def f(E, a, ci):
        y = d1(a[0])
        if type(y) is SI and models.tn(E, models.strip_ref(E, ci.ta[0])) == "char":
            return StringV(mktext(E, [y]))
        if type(y) is Agg and range_kind(E, y) == "Cow":
            return StringV(text(y.f[0]))
        return old(E, a, ci)
    M["std::string::ToString::to_string"] = f


_to_string_wrap()


@tmodel("std::ops::Add::add", "std::ops::AddAssign::add_assign")
def _sadd(E, s, a, ci):
    r = concat(E, [a[0], a[1]])
    if ci.decl.endswith("assign"):
        d1(a[0]).v = r
        return core.unit()
    return StringV(r)


# ------------------------------------------------------------- numbers
def digitval(E, c, radix):
    """digit value or None"""
    if E.le(48, c) and E.le(c, 47 + min(radix, 10)):
        return models.addc(c, -48)
    if radix > 10:
        if E.le(65, c) and E.le(c, 54 + radix):
            return models.addc(c, -55)
        if E.le(97, c) and E.le(c, 86 + radix):
            return models.addc(c, -87)
    return None


def radix_value(E, cs, radix, lo, hi):
    """value of the digits `cs` (unsigned), or None when a character is no digit, or "big" above hi"""
    ds = []
    for c in cs:
        d = digitval(E, c, radix)
        if d is None:
            return None
        ds.append(d)
    if all(type(d) is int for d in ds):
        v = 0
        for d in ds:
            v = v * radix + d
        return v if v <= hi else "big"
    key = ("radix", ckey(ds), radix)
    if key not in E.facts:
        E.facts[key] = radix_sym(E, ds, radix)
    r = E.facts[key]
    a, b = E.bounds(r)
    if a > hi:
        return "big"
    if b > hi and not E.le(r, hi):
        return "big"
    return r


def radix_sym(E, ds, radix):
    v, sym = 0, []
    mn = mx = 0
    n = len(ds)
    for i, d in enumerate(ds):
        w = radix ** (n - 1 - i)
        a, b = E.bounds(d)
        if a != b:
            sym.append((d, w))
        else:
            v += a * w
        mn, mx = mn + a * w, mx + b * w
    if not sym:
        return v
    if len(sym) == 1 and sym[0][1] == 1:
        return models.addc(sym[0][0], v)
    return E.int_var(mn, mx)


def int_parse(E, cs, radix, lo, hi):
    """Rust's integer from_str_radix: value or None"""
    if not cs:
        return None
    neg = False
    if E.ieq(cs[0], 43):
        cs = cs[1:]
    elif lo < 0 and E.ieq(cs[0], 45):
        cs, neg = cs[1:], True
    if not cs:
        return None
    v = radix_value(E, cs, radix, 0, -lo if neg else hi)
    if v is None or v == "big":
        return None
    if not neg:
        return v
    if type(v) is int:
        return -v
    return ops.neg(E, v)


def float_shape(E, cs):
    """is the text a decimal floating point number in Rust's syntax?"""
    i = 0
    n = len(cs)
    isd = lambda i: i < n and E.le(48, cs[i]) and E.le(cs[i], 57)
    if i < n and (E.ieq(cs[i], 43) or E.ieq(cs[i], 45)):
        i += 1
    if i < n and not isd(i) and not E.ieq(cs[i], 46):
        w = known("".join(map(chr, cs[i:]))) if all(type(c) is int for c in cs[i:]) else None
        if w is None:
            raise Undecided("float word")
        return w.lower() in ("inf", "infinity", "nan")
    k = 0
    while isd(i):
        i, k = i + 1, k + 1
    if i < n and E.ieq(cs[i], 46):
        i += 1
        while isd(i):
            i, k = i + 1, k + 1
    if k == 0:
        return False
    if i < n and (E.ieq(cs[i], 101) or E.ieq(cs[i], 69)):
        i += 1
        if i < n and (E.ieq(cs[i], 43) or E.ieq(cs[i], 45)):
            i += 1
        if not isd(i):
            return False
        while isd(i):
            i += 1
    return i == n


def float_parse(E, cs):
    if not float_shape(E, cs):
        return None
    if all(type(c) is int for c in cs):
        return FV(bits=ops.fbits(float("".join(map(chr, cs)))))
    key = ("float", ckey(cs))
    if key not in E.facts:
        E.facts[key] = FV(v=E.z.var(), id=("parsed",) + ckey(cs))
    return E.facts[key]


def finite(E, f):
    """is the float finite?"""
    if f.bits is not None:
        return (f.bits >> 52) & 0x7ff != 0x7ff
    if type(f.id) is tuple and f.id[:1] == ("parsed",):
        cs = f.id[1:]
        n = max((i for i, c in enumerate(cs) if c in (101, 69)), default=len(cs))
        x = cs[n + 1:]
        if any(type(c) is tuple for c in x) and len(x) > 2 or n + (99 if x else 0) > 290:
            if all(type(c) is int for c in x) and abs(int("".join(map(chr, x)))) + n < 290:
                return True
            raise Undecided("magnitude of a float literal")
        return True
    if E.is_nan(f):
        return False
    from . import floats
    return floats.finite(E, f)


def _isfin(E, a, ci):
    f = d1(a[0])
    r = finite(E, f)
    if ci.decl.endswith("is_infinite"):
        return not r and not E.is_nan(f)
    return r


for _n in ("is_finite", "is_infinite"):
    for _p in ("core::num::<impl f64>::", "std::f64::<impl f64>::", "core::f64::<impl f64>::"):
        M[_p + _n] = _isfin


@tmodel(ST + "parse")
def _parse(E, s, a, ci):
    t = E.p.types[ci.ta[0]] if ci.ta else None
    return parse_as(E, s, t, ci)


def parse_as(E, s, t, ci):
    if t is None:
        raise Undecided("parse type")
    if t["k"] == "float":
        f = float_parse(E, cells(s))
        return ok(f) if f is not None else err(Obj("parsefloat"))
    if t["k"] in ("int", "uint"):
        lo, hi = ops.rng(t)
        v = int_parse(E, cells(s), 10, lo, hi)
        return ok(v) if v is not None else err(Obj("parseint"))
    raise Undecided("parse into %s" % t["k"])


_old_fs = M.get("std::str::FromStr::from_str")


def _from_str(E, a, ci):
    s = text(a[0])
    t = E.p.types[ci.ta[0]]
    if (type(s) is str or tx(s) is not None) and t["k"] in ("int", "uint", "float"):
        return parse_as(E, s, t, ci)
    if t["k"] == "adt" and t["name"].endswith("String"):
        return ok(StringV(s))
    if _old_fs:
        return _old_fs(E, a, ci)
    return NotImplemented


M["std::str::FromStr::from_str"] = _from_str


def _mk_radix(bits, signed):
    def f(E, a, ci):
        s = text(a[0])
        cs = cells(s)
        if cs is None:
            raise Undecided("number in opaque text")
        r = E.concretize(a[1])
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if not 2 <= r <= 36:
            raise Panic("from_str_radix radix", E.where())
        v = int_parse(E, cs, r, lo, hi)
        return ok(v) if v is not None else err(Obj("parseint"))
    return f


for _b, _t in ((8, "8"), (16, "16"), (32, "32"), (64, "64"), (128, "128"), (64, "size")):
    for _sg in "iu":
        M["core::num::<impl %s%s>::from_str_radix" % (_sg, _t)] = _mk_radix(_b, _sg == "i")


def _to_digit(E, a, ci):
    d = digitval(E, d1(a[0]), E.concretize(a[1]))
    return some(d) if d is not None else none()


M["std::char::methods::<impl char>::to_digit"] = _to_digit


def _decode_utf16(E, a, ci):
    it = models.as_iter(E, a[0])
    buf = []

    def get():
        return buf.pop() if buf else it.nxt(E)

    def nx(E):
        u = get()
        if u is STOP:
            return STOP
        u = E.concretize(u, 70000, "utf16") if type(u) is int or E.conc(u) is not None else u
        if type(u) is SI:
            if not (E.le(0xd800, u) and E.le(u, 0xdfff)):
                return ok(u)
            raise Undecided("symbolic surrogate")
        if not 0xd800 <= u <= 0xdfff:
            return ok(u)
        if u >= 0xdc00:
            return err(Obj("utf16err"))
        w = get()
        if w is STOP:
            return err(Obj("utf16err"))
        w = E.conc(w)
        if w is None:
            raise Undecided("symbolic surrogate")
        if not 0xdc00 <= w <= 0xdfff:
            buf.append(w)
            return err(Obj("utf16err"))
        return ok(0x10000 + ((u - 0xd800) << 10) + (w - 0xdc00))
    return IterV(nx)


M["std::char::decode_utf16"] = M["core::char::decode_utf16"] = _decode_utf16


# ------------------------------------------------------------- encodings
_old_unesc = M["escape8259::unescape"]


def _unesc(E, a, ci):
    try:
        s = text(a[-1])
    except Undecided:
        s = None
    if s is not None and cells(s) is not None:
        return NotImplemented       # its own code is interpreted
    return _old_unesc(E, a, ci)


M["escape8259::unescape"] = _unesc
def _abytes(E, x):
    """bytes behind an AsRef<[u8]> argument, as a list, or None when opaque"""
    x = d1(x)
    while type(x) in (BoxV, RcV):
        x = d1(x.f[0])
    if type(x) is StringV:
        x = x.v
    if type(x) is str:
        return list(x.encode())
    if tx(x) is not None:
        t = tbytes(E, x)
        return t[0][t[1]:t[2]]
    l = E.aslist(x)
    return l if type(l) is list else None


def pair_byte(E, h, l):
    if type(h) is int and type(l) is int:
        return h * 16 + l
    key = ("hexpair",) + ckey([h, l])
    if key not in E.facts:
        a, b = E.bounds(h)
        c, d = E.bounds(l)
        E.facts[key] = models.addc(l, a * 16) if a == b and c != d else a * 16 + c if a == b else E.int_var(a * 16 + c, b * 16 + d)
    return E.facts[key]


def hex_bytes(E, by):
    """decoded bytes or None"""
    if len(by) % 2:
        return None
    out = []
    for i in range(0, len(by), 2):
        h, l = digitval(E, by[i], 16), digitval(E, by[i + 1], 16)
        if h is None or l is None:
            return None
        out.append(pair_byte(E, h, l))
    return out


_old_hex, _old_b64 = M["hex::decode"], M["base64::Engine::decode"]


def _hex(E, a, ci):
    by = _abytes(E, a[0])
    if by is None:
        return _old_hex(E, a, ci)
    r = hex_bytes(E, by)
    return ok(VecV(r)) if r is not None else err(Obj("hexerr"))


M["hex::decode"] = _hex

URLSAFE = list(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")


def ranges_of(l):
    out = []
    for c in sorted(l):
        if out and out[-1][1] == c - 1:
            out[-1] = (out[-1][0], c)
        else:
            out.append((c, c))
    return out


def b64_bytes(E, by, alpha=URLSAFE, pad=1, trailing=False):
    """base64 decoding: bytes or None.  pad: 0 indifferent, 1 canonical padding required, 2 none allowed"""
    al = {c: i for i, c in enumerate(alpha)}
    rs = ranges_of(alpha)
    cs = []
    for c in by:
        k = c
        if type(c) is not int:
            if in_ranges(E, c, rs):
                cs.append(("v", c))
                continue
            k = 61 if E.ieq(c, 61) else -1
        cs.append(k)
    n = len(cs)
    body = cs
    np = 0
    while np < 2 and body and body[-1] == 61:
        body, np = body[:-1], np + 1
    if len(body) % 4 == 1:
        return None
    if pad == 2 and np or pad == 1 and n % 4 or pad == 0 and np and n % 4:
        return None
    if any(c == 61 or (type(c) is int and c not in al) for c in body):
        return None
    if any(type(c) is tuple for c in body):
        key = ("b64", tuple(alpha), tuple(ckey([c[1]])[0] if type(c) is tuple else c for c in body))
        m = len(body) * 6 // 8
        if len(body) % 4 and not trailing:
            # the unused bits of the last character
            last = body[-1]
            mask = 15 if len(body) % 4 == 2 else 3
            if type(last) is tuple:
                if E.fact(("b64tail",) + key) == 0:
                    return None
            elif al[last] & mask:
                return None
        return [SymByteAt(E, key, i) for i in range(m)]
    acc = bits = 0
    out = []
    for c in body:
        acc, bits = (acc << 6) | al[c], bits + 6
        if bits >= 8:
            bits -= 8
            out.append((acc >> bits) & 255)
    if bits and acc & ((1 << bits) - 1) and not trailing:
        return None
    return out


def SymByteAt(E, key, i):
    k = ("byte", key, i)
    if k not in E.facts:
        E.facts[k] = E.int_var(0, 255)
    return E.facts[k]


def engine_kind(E, x):
    """(alphabet, padding mode, trailing bits allowed) of a base64 engine constant"""
    tabs, conf = [], []

    def walk(v):
        v = d1(v)
        if type(v) is Agg:
            if len(v.f) == 64 and all(type(z) is int for z in v.f):
                tabs.append(list(v.f))
            elif len(v.f) == 3 and type(v.f[1]) is bool and type(v.f[2]) is Agg:
                conf.append((v.f[1], v.f[2].var))
            elif len(v.f) < 10:
                for z in v.f:
                    walk(z)
    walk(x)
    if len(tabs) != 1 or len(conf) != 1:
        raise Undecided("base64 engine")
    return tabs[0], conf[0][1], conf[0][0]


def _b64(E, a, ci):
    by = _abytes(E, a[1])
    if by is None:
        return _old_b64(E, a, ci)
    al, pad, tr = engine_kind(E, a[0])
    r = b64_bytes(E, by, al, pad, tr)
    return ok(VecV(r)) if r is not None else err(Obj("b64err"))


M["base64::Engine::decode"] = _b64
