"""Contracts of external (non-std) operations, as free facts.

regex      : Regex::is_match(pattern, text) is an unconstrained boolean fact
             per (pattern, text); building a pattern succeeds or fails by fact.
ciborium / serde_json / hex / base64 / escape8259 : decoding is an
             unconstrained fact per argument: malformed, or a value supplied by
             the template.
LookupContext : the rule environment of the template."""
from .core import (Agg, BoxV, RcV, Ref, SliceRef, StringV, SymStr, SymBytes, VecV, MapV, SI, FV, FnV, PyFn, Obj, IterV,
                   Undecided, Panic, Infeasible, STOP, unit, tup, some, none, ok, err, opt)
from .models import model, M, d1, text, LI, strip_ref, tn
from . import models


def skey(E, s):
    k = E.rep(s)
    return k


# ---------------------------------------------------------------- rule lookup
@model("cddl_cat::context::LookupContext::lookup_rule")
def _lookup(E, a, ci):
    x = d1(a[0])
    if type(x) in (BoxV, RcV):
        x = d1(x.f[0])
    if type(x) is Obj and x.kind == "env":
        nm = text(a[1])
        for k, rd in x.d["rules"]:
            if E.streq(k, nm):
                return ok(Ref([rd], 0))
        ve = E.p.adt("util::ValidateError")
        return err(E.p.mk(ve, "MissingRule", StringV(nm)))
    if type(x) is Agg:
        for f in E.p.fns:
            if f.local and f.has and f.defn.endswith("LookupContext>::lookup_rule") and \
                    strip_ref(E, f.d["locals"][1]) == x.ty:
                return E.p.run(E, f, [Ref([x], 0), a[1]])
    raise Undecided("lookup on unknown context")


# ---------------------------------------------------------------- regex
@model("regex::RegexBuilder::new")
def _rb_new(E, a, ci):
    return Obj("regexbuilder", pat=text(a[0]), opts=[])


def _rb_opt(E, a, ci):
    b = d1(a[0])
    b.d["opts"].append((ci.decl.split("::")[-1], E.conc(a[1]) if type(a[1]) in (int, SI) else a[1]))
    return a[0]


for _n in ("size_limit", "case_insensitive", "multi_line", "dot_matches_new_line", "swap_greed", "ignore_whitespace",
           "unicode", "octal", "dfa_size_limit", "nest_limit", "crlf", "line_terminator"):
    M["regex::RegexBuilder::" + _n] = _rb_opt


@model("regex::RegexBuilder::build")
def _rb_build(E, a, ci):
    b = d1(a[0])
    r = Obj("regex", pat=b.d["pat"], opts=tuple(b.d["opts"]))
    k = skey(E, b.d["pat"])
    E.notes.append(("regex-build", b.d["pat"], tuple(b.d["opts"])))
    if E.fact(("rebuild", k)) == 0:
        return ok(r)
    return err(Obj("regexerr"))


@model("regex::Regex::new")
def _r_new(E, a, ci):
    p = text(a[0])
    E.notes.append(("regex-build", p, ()))
    if E.fact(("rebuild", skey(E, p))) == 0:
        return ok(Obj("regex", pat=p, opts=()))
    return err(Obj("regexerr"))


@model("regex::Regex::is_match")
def _r_match(E, a, ci):
    r = d1(a[0])
    return E.fact(("re", skey(E, r.d["pat"]), skey(E, text(a[1])))) == 0


@model("regex::Regex::as_str")
def _r_str(E, a, ci):
    return d1(a[0]).d["pat"]


# ---------------------------------------------------------------- CBOR
@model("<i128 as std::convert::From<ciborium::value::Integer>>::from")
def _cint(E, a, ci):
    return a[0].d["v"]


def from_cint(E, a, ci):
    v = d1(a[0])
    if type(v) is Obj and v.kind == "cint":
        return v.d["v"]
    return NotImplemented


_old_into = M["std::convert::Into::into"]
_old_from = M["std::convert::From::from"]
_old_tinto = M["std::convert::TryInto::try_into"]
_old_tfrom = M["std::convert::TryFrom::try_from"]


def _wrap(old, si):
    def f(E, a, ci):
        if type(a[0]) is Obj and a[0].kind == "cint":
            from . import ops
            dt = E.p.types[ci.ta[1 - si] if len(ci.ta) > 1 else ci.ta[0]]
            v = a[0].d["v"]
            if old in (_old_into, _old_from):
                if dt["k"] == "int" and dt["bits"] == 128:
                    return v
                raise Undecided("integer conversion")
            if dt["k"] not in ("int", "uint"):
                raise Undecided("integer conversion")
            lo, hi = ops.rng(dt)
            if E.le(lo, v) and E.le(v, hi):
                return ok(v)
            return err(Obj("tryfromint"))
        return old(E, a, ci)
    return f


M["std::convert::Into::into"] = _wrap(_old_into, 0)
M["std::convert::From::from"] = _wrap(_old_from, 1)
M["std::convert::TryInto::try_into"] = _wrap(_old_tinto, 0)
M["std::convert::TryFrom::try_from"] = _wrap(_old_tfrom, 1)


def bytes_of(E, x):
    while True:
        t = type(x)
        if t is Ref:
            x = x.b[x.k]
        elif t is BoxV:
            x = x.f[0]
        elif t is VecV:
            x = x.l
        elif t is SliceRef:
            if len(x.l) == x.n and x.n == 0:
                return []
            return x
        else:
            return x


def cbor_outcome(E, b):
    """0 complete item, 1 malformed, 2 complete item with trailing bytes"""
    k = ("cbor", b.id)
    if k not in E.facts:
        n = E.strlen(b)
        if E.conc(n) == 0:
            E.facts[k] = 1
        else:
            o = E.fact(k, 3)
            if o != 1 and not E.le_assume(1 if o == 0 else 2, n):
                raise Infeasible()
    return E.facts[k]


def depth(x):
    """nesting of a data tree"""
    t = type(x)
    if t is Ref:
        return depth(x.b[x.k])
    if t is BoxV:
        return depth(x.f[0])
    if t is VecV:
        return 1 + max([depth(y) for y in x.l] if type(x.l) is list else [0], default=0)
    if t is Agg and x.f:
        return max(depth(y) for y in x.f)
    return 0


@model("ciborium::from_reader", "ciborium::de::from_reader", "ciborium::de::from_reader_with_recursion_limit",
       "ciborium::from_reader_with_buffer")
def _from_reader(E, a, ci):
    r = a[0]
    cursor = None
    slot = None
    x = r
    while type(x) is Ref:
        y = x.b[x.k]
        if type(y) is Agg or type(y) is Obj:
            cursor = y
            break
        slot = x
        x = y
    if type(x) is Obj:
        cursor = x
    if cursor is not None:
        if type(cursor) is Obj and cursor.kind == "cursor":
            b = bytes_of(E, cursor.d["src"])
        else:
            raise Undecided("cbor reader")
    else:
        b = bytes_of(E, r)
    if type(b) is not SymBytes or not (b.info and "data" in b.info):
        raise Undecided("cbor decode of unknown bytes")
    o = cbor_outcome(E, b)
    if ci.decl.endswith("recursion_limit") and E.conc(a[1]) != 256:
        # another nesting limit than the default: deep items are refused, or accepted
        lim = E.conc(a[1])
        if lim is None:
            raise Undecided("recursion limit")
        n = depth(b.info["data"](E))
        if abs(n - lim) < 3:
            raise Undecided("nesting near the limit")
        if n > lim:
            return err(Obj("cborerr"))
    if o == 1:
        return err(Obj("cborerr"))
    rest = SliceRef([], 0, 0) if o == 0 else SymBytes(b.id + ".rest", {"minlen": 1})
    if slot is not None and type(slot.b[slot.k]) is SymBytes:
        slot.b[slot.k] = rest
    if cursor is not None:
        n = E.strlen(b)
        if o == 0:
            cursor.d["pos"] = n
        else:
            p = E.int_var(1, None)
            if not E.le(p, n, -1):
                raise Infeasible()
            cursor.d["pos"] = p
    return ok(b.info["data"](E))


@model("std::io::Cursor::<T>::new")
def _cur_new(E, a, ci):
    return Obj("cursor", src=a[0], pos=0)


@model("std::io::Cursor::<T>::position")
def _cur_pos(E, a, ci):
    return d1(a[0]).d["pos"]


@model("std::io::Cursor::<T>::get_ref", "std::io::Cursor::<T>::into_inner")
def _cur_get(E, a, ci):
    return d1(a[0]).d["src"]


# ---------------------------------------------------------------- JSON
OK, BAD, MORE, EMPTY = 0, 1, 2, 3


def json_outcome(E, s):
    """0 one complete value, 1 malformed, 2 a value followed by something else, 3 nothing but whitespace"""
    k = ("json", s.id)
    if k not in E.facts:
        if E.conc(E.strlen(s)) == 0:
            E.facts[k] = EMPTY
            return EMPTY
        o = E.fact(k, 4)
        if o != EMPTY and not E.le_assume(1, E.strlen(s)):
            raise Infeasible()
    return E.facts[k]


def json_source(E, x):
    while type(x) in (Ref, BoxV):
        x = x.b[x.k] if type(x) is Ref else x.f[0]
    try:
        s = text(x)
    except Undecided:
        s = bytes_of(E, x)
        if type(s) is SymBytes and s.info and "of" in s.info:
            s = s.info["of"]
    if type(s) is not SymStr or not (s.info and "data" in s.info):
        raise Undecided("json decode of unknown text")
    return s


@model("serde_json::from_str", "serde_json::from_slice", "serde_json::from_reader")
def _json_from_str(E, a, ci):
    s = json_source(E, a[0])
    if json_outcome(E, s) != OK:
        return err(Obj("jsonerr"))
    return ok(s.info["data"](E))


def _json_de(E, a, ci):
    return Obj("jsonde", src=json_source(E, a[0]), n=0)


for _n in ("from_str", "from_slice", "from_reader"):
    for _p in ("serde_json::Deserializer::<serde_json::de::StrRead<'a>>::", "serde_json::Deserializer::<serde_json::de::SliceRead<'a>>::",
               "serde_json::Deserializer::<serde_json::de::IoRead<R>>::", "serde_json::Deserializer::<serde_json::de::StrRead<'_>>::",
               "serde_json::Deserializer::<serde_json::de::SliceRead<'_>>::", "serde_json::Deserializer::<R>::"):
        M[_p + _n] = _json_de
M["serde_json::Deserializer::<R>::into_iter"] = lambda E, a, ci: a[0]


def de_next(E, d):
    """the next value of a deserialiser: None at the end, or a Result"""
    o = json_outcome(E, d.d["src"])
    n = d.d["n"]
    d.d["n"] = n + 1
    if n == 0:
        if o == EMPTY:
            return None
        return err(Obj("jsonerr")) if o == BAD else ok(d.d["src"].info["data"](E))
    if o == OK or o == EMPTY or n > 1:
        return None
    if o == BAD:
        return None
    # what follows the value: another value or garbage
    if E.fact(("json-rest", d.d["src"].id)) == 0:
        return err(Obj("jsonerr"))
    raise Undecided("second JSON value")


def _de_end(E, a, ci):
    d = d1(a[0])
    o = json_outcome(E, d.d["src"])
    if o == OK and d.d["n"] == 1 or o == EMPTY and d.d["n"] == 0:
        return ok(unit())
    if o == MORE and d.d["n"] == 1 or o in (OK, MORE) and d.d["n"] == 0:
        return err(Obj("jsonerr"))
    raise Undecided("end of a failed deserialiser")


M["serde_json::Deserializer::<R>::end"] = _de_end


def _deserialize(E, a, ci):
    try:
        d = d1(a[0])
    except Exception:
        return NotImplemented
    if type(d) is not Obj or d.kind != "jsonde":
        return NotImplemented
    r = de_next(E, d)
    return err(Obj("jsonerr")) if r is None else r


for _n in ("serde::Deserialize::deserialize", "serde_core::Deserialize::deserialize", "serde::de::Deserialize::deserialize", "serde_core::de::Deserialize::deserialize"):
    M[_n] = _deserialize

_old_next = M.get("std::iter::Iterator::next")


def _next(E, a, ci):
    x = a[0]
    while type(x) is Ref:
        x = x.b[x.k]
    if type(x) is Obj and x.kind == "jsonde":
        r = de_next(E, x)
        return none() if r is None else some(r)
    return _old_next(E, a, ci) if _old_next else NotImplemented


M["std::iter::Iterator::next"] = _next


# texts that stand for encoded data, cut at the ends
def cut_ends(E, s):
    """the text without some characters that are no JSON whitespace at an end: what was refused may become readable"""
    if E.fact(("cut", s.id)) == 0:
        return s                    # nothing cut, or JSON whitespace only: the same outcome
    if json_outcome(E, s) != BAD:
        raise Infeasible()
    if ("cut", s.id, "to") not in E.facts:
        E.facts[("cut", s.id, "to")] = SymStr(("cut", s.id), dict(s.info))
    return E.facts[("cut", s.id, "to")]


def carries(x):
    try:
        s = text(x)
    except Undecided:
        return None
    return s if type(s) is SymStr and type(s.info) is dict and "data" in s.info else None


def nonjson(E, p):
    """a pattern no JSON text starts or ends with"""
    if type(p) in (int, SI):
        c = E.conc(p)
        return c is not None and (c > 127 or c < 9)
    try:
        s = text(p)
    except Undecided:
        return False
    return type(s) is str and len(s) > 0 and all(ord(c) > 127 or ord(c) < 9 for c in s)


def _cutter(name, old):
    def f(E, a, ci):
        s = carries(a[0])
        if s is None:
            return old(E, a, ci) if old else NotImplemented
        if len(a) > 1 and not nonjson(E, a[1]):
            raise Undecided("cut of encoded text")
        r = cut_ends(E, s)
        if name.startswith("strip_"):
            return none() if r is s else some(r)
        return r
    return f


def install_cutters():
    for n in ("trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "strip_prefix", "strip_suffix", "trim_ascii", "trim_ascii_start",
              "trim_ascii_end"):
        k = "core::str::<impl str>::" + n
        M[k] = _cutter(n, M.get(k))
    k = "core::str::<impl str>::parse"
    old = M.get(k)

    def parse(E, a, ci):
        s = carries(a[0])
        if s is None:
            return old(E, a, ci)
        t = E.p.types[ci.ta[0]] if ci.ta else None
        if t and t["k"] == "adt" and t["name"].endswith("Value"):
            return _json_from_str(E, a, ci)
        raise Undecided("parse of encoded text")
    M[k] = parse


def _num(name):
    def f(E, a, ci):
        n = d1(a[0])
        k = n.d["k"]
        if name == "as_u64":
            if k == "int" and E.le(0, n.d["v"]):
                return some(n.d["v"])
            return none()
        if name == "as_i64":
            if k == "int" and E.le(n.d["v"], (1 << 63) - 1):
                return some(n.d["v"])
            return none()
        if name == "as_f64":
            if k == "float":
                return some(n.d["v"])
            c = E.conc(n.d["v"])
            if c is not None:
                from . import floats
                return some(floats.mk(float(c)))
            E.imprecise = "float of an unknown integer"
            return some(FV(v=E.z.var(), id=E.fresh("intasf64")))
        if name == "is_u64":
            return k == "int" and E.le(0, n.d["v"])
        if name == "is_i64":
            return k == "int" and E.le(n.d["v"], (1 << 63) - 1)
        if name == "is_f64":
            return k == "float"
        if name in ("as_i128", "as_u128"):
            if k == "int" and (name == "as_i128" or E.le(0, n.d["v"])):
                return some(n.d["v"])
            return none()
    return f


for _n in ("as_u64", "as_i64", "as_f64", "is_u64", "is_i64", "is_f64", "as_i128", "as_u128"):
    M["serde_json::Number::" + _n] = _num(_n)

_JM = "serde_json::Map::<std::string::String, serde_json::Value>::"


@model(_JM + "iter")
def _jm_iter(E, a, ci):
    y = d1(a[0])
    return LI(lambda E, i: tup(Ref(y.e[i], 0), Ref(y.e[i], 1)), len(y.e))


@model(_JM + "len")
def _jm_len(E, a, ci):
    return len(d1(a[0]).e)


@model(_JM + "is_empty")
def _jm_empty(E, a, ci):
    return not d1(a[0]).e


@model(_JM + "keys")
def _jm_keys(E, a, ci):
    y = d1(a[0])
    return LI(lambda E, i: Ref(y.e[i], 0), len(y.e))


@model(_JM + "values")
def _jm_values(E, a, ci):
    y = d1(a[0])
    return LI(lambda E, i: Ref(y.e[i], 1), len(y.e))


@model(_JM + "get")
def _jm_get(E, a, ci):
    y = d1(a[0])
    k = text(a[1])
    for e in y.e:
        if E.streq(text(e[0]), k):
            return some(Ref(e, 1))
    return none()


# ---------------------------------------------------------------- text decoders
def _dec(name, out):
    def f(E, a, ci):
        x = a[-1]
        try:
            s = text(x)
        except Undecided:
            s = bytes_of(E, x)
            if type(s) is SliceRef:
                s = E.tobytes(s.items())
                s = s.decode("utf8")
        k = E.rep(s)
        if E.fact((name, k)) == 1:
            return err(Obj(name + "-err"))
        sid = "%s(%s)" % (name, k)
        return ok(StringV(SymStr(sid)) if out == "s" else VecV(SymBytes(sid)))
    return f


M["hex::decode"] = _dec("hex", "b")
M["base64::Engine::decode"] = _dec("base64", "b")
M["escape8259::unescape"] = _dec("unescape", "s")
