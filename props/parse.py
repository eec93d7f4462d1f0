"""CDDL texts (C25-C30, C34): every one-character variation of a set of texts.

The text handed to the public parser is made of known characters and unknown
ones ranging over a whole UTF-8 length class.  The parser's own code and that
of the combinator library are interpreted; the outcome (syntax tree, or error
kind) is compared with the reference parser below on every trace.
"""
import random

from absint import core, ops, textm
from absint.core import (Agg, BoxV, RcV, Ref, StringV, SymStr, VecV, SI, FV, Panic, Diverge, Undecided, explore, replay)
from absint.textm import mktext, input_text, radix_value, float_parse, hex_bytes, b64_bytes, tbytes, digitval
from absint.models import text
from absint.vrun import site, describe
from . import flat

U64 = (1 << 64) - 1


class Fail(Exception):
    def __init__(self, kind):
        self.kind = kind


class DontCare(Exception):
    pass


class Ref_:
    """reference parser: the library's documented dialect of RFC 8610 over cells"""

    def __init__(self, E, cells):
        self.E, self.c, self.n = E, cells, len(cells)

    # -------------------------------------------------------------- characters
    def at(self, i, ch):
        return i < self.n and self.E.ieq(self.c[i], ord(ch))

    def rng(self, i, lo, hi):
        if i >= self.n:
            return False
        c = self.c[i]
        if type(c) is int:
            return lo <= c <= hi
        return self.E.le(lo, c) and self.E.le(c, hi)

    def lit(self, i, s):
        return all(self.at(i + k, ch) for k, ch in enumerate(s))

    def digit(self, i):
        return self.rng(i, 48, 57)

    def hexd(self, i):
        return self.digit(i) or self.rng(i, 65, 70) or self.rng(i, 97, 102)

    def ealpha(self, i):
        return self.rng(i, 97, 122) or self.rng(i, 64, 90) or self.at(i, "_") or self.at(i, "$")

    def txt(self, a, b):
        return mktext(self.E, self.c[a:b])

    # -------------------------------------------------------------- white space
    def ws(self, i):
        while i < self.n:
            if self.at(i, " ") or self.at(i, "\t") or self.at(i, "\n") or self.at(i, "\r"):
                i += 1
            elif self.at(i, ";"):
                j = i + 1
                while j < self.n and not self.at(j, "\n") and not self.at(j, "\r"):
                    j += 1
                if self.at(j, "\r") and not self.at(j + 1, "\n"):
                    return i
                i = j
            else:
                return i
        return i

    def optcom(self, i):
        i = self.ws(i)
        if self.at(i, ","):
            i = self.ws(i + 1)
        return i

    # -------------------------------------------------------------- tokens
    def ident(self, i):
        if not self.ealpha(i):
            return None
        j = i + 1
        while True:
            k = j
            while self.at(k, "-") or self.at(k, "."):
                k += 1
            if not (self.ealpha(k) or self.digit(k)):
                return j, self.txt(i, j)
            j = k + 1

    def uint(self, i):
        if self.lit(i, "0x") and self.hexd(i + 2):
            j = i + 3
            while self.hexd(j):
                j += 1
            return j, (i + 2, j, 16)
        if self.lit(i, "0b") and (self.at(i + 2, "0") or self.at(i + 2, "1")):
            j = i + 3
            while self.at(j, "0") or self.at(j, "1"):
                j += 1
            return j, (i + 2, j, 2)
        if self.at(i, "0"):
            return i + 1, (i, i + 1, 10)
        if self.digit(i):
            j = i + 1
            while self.digit(j):
                j += 1
            return j, (i, j, 10)
        return None

    def intval(self, r, hi=U64):
        a, b, base = r
        v = radix_value(self.E, self.c[a:b], base, 0, hi)
        if v is None:
            raise Undecided("reference number")
        if v == "big":
            raise Fail("MalformedInteger")
        return v

    def number(self, i):
        neg = self.at(i, "-")
        r = self.uint(i + 1 if neg else i)
        if r is None:
            return None
        j, raw = r
        fl = False
        if self.at(j, ".") and self.digit(j + 1):
            fl = True
            j += 2
            while self.digit(j):
                j += 1
        if self.at(j, "e"):
            k = j + 1
            if self.at(k, "+") or self.at(k, "-"):
                k += 1
            if self.digit(k):
                fl = True
                j = k + 1
                while self.digit(j):
                    j += 1
        if fl:
            f = float_parse(self.E, self.c[i:j])
            if f is None or not textm.finite(self.E, f):
                raise Fail("MalformedFloat")
            return j, ("vf", f)
        if neg:
            v = self.intval(raw, 1 << 63)
            return j, ("vn", -v if type(v) is int else ops.neg(self.E, v))
        return j, ("vu", self.intval(raw))

    def unescape(self, a, b, quote):
        """content of a string literal"""
        E, out, i = self.E, [], a
        simple = {"b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "/": 47, "\\": 92, quote: ord(quote)}
        while i < b:
            if not self.at(i, "\\"):
                out.append(self.c[i])
                i += 1
                continue
            for ch, v in simple.items():
                if self.at(i + 1, ch):
                    out.append(v)
                    i += 2
                    break
            else:
                if quote == "'" and self.at(i + 1, '"'):
                    out.append(34)         # tolerated by the library
                    i += 2
                    continue
                if not self.at(i + 1, "u"):
                    raise Fail("MalformedText")
                v = self.u4(i + 2, b)
                if not (E.le(0xd800, v) and E.le(v, 0xdfff)):
                    out.append(v)
                    i += 6
                    continue
                if not (i + 7 < b and self.lit(i + 6, "\\u")):
                    raise Fail("MalformedText")
                w = self.u4(i + 8, b)
                v, w = E.conc(v), E.conc(w)
                if v is None or w is None:
                    raise Undecided("symbolic surrogate")
                if not (v < 0xdc00 and 0xdc00 <= w <= 0xdfff):
                    raise Fail("MalformedText")
                out.append(0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00))
                i += 12
        return out

    def u4(self, i, b):
        if i + 4 <= b and self.at(i, "+"):
            raise DontCare()               # accepted by the escape8259 crate
        if i + 4 > b or not all(self.hexd(i + k) for k in range(4)):
            raise Fail("MalformedText")
        return radix_value(self.E, self.c[i:i + 4], 16, 0, 0xffff)

    def body(self, i, quote):
        """characters up to the closing quote: end position, or None"""
        while i < self.n:
            if self.at(i, quote):
                return i
            if self.at(i, "\\"):
                if i + 1 >= self.n:
                    return None
                i += 2
                continue
            if not (self.rng(i, 0x20, 0x7e) or self.rng(i, 0x80, 0x10fffd)):
                return None
            i += 1
        return None

    def value(self, i):
        r = self.number(i)
        if r is not None:
            return r
        E = self.E
        if self.at(i, '"'):
            j = self.body(i + 1, '"')
            if j is None:
                return None
            return j + 1, ("vt", mktext(E, self.unescape(i + 1, j, '"')))
        for pre in ("", "h", "b64"):
            if not self.lit(i, pre + "'"):
                continue
            a = i + len(pre) + 1
            j = self.body(a, "'")
            if j is None:
                continue
            if pre == "":
                t = mktext(E, self.unescape(a, j, "'"))
                by = list(t.encode()) if type(t) is str else list(textm.strbytes(E, t))
            elif pre == "h":
                cs = [c for k, c in enumerate(self.c[a:j]) if not (self.at(a + k, " ") or self.rng(a + k, 9, 10) or self.rng(a + k, 12, 13))]
                by = hex_bytes(E, self.utf8(cs))
                if by is None:
                    raise Fail("MalformedHex")
            else:
                by = b64_bytes(E, self.utf8(self.c[a:j]))
                if by is None:
                    raise Fail("MalformedBase64")
            return j + 1, ("vb", by)
        return None

    def utf8(self, cs):
        t = mktext(self.E, cs)
        return list(t.encode()) if type(t) is str else list(textm.strbytes(self.E, t))

    # -------------------------------------------------------------- types
    def list1(self, i, sep, f):
        r = f(i)
        if r is None:
            return None
        i, x = r
        out = [x]
        while True:
            j = sep(i)
            if j is None:
                return i, out
            r = f(j)
            if r is None:
                return i, out
            i, x = r
            out.append(x)

    def sep(self, ch):
        def f(i):
            i = self.ws(i)
            if not self.lit(i, ch):
                return None
            return self.ws(i + len(ch))
        return f

    def ty(self, i):
        return self.list1(i, self.sep("/"), self.type1)

    def comma(self, i):
        return self.ws(i + 1) if self.at(i, ",") else None

    def args(self, i, f):
        """"<" items ">" or None"""
        if not self.at(i, "<"):
            return None

        def item(i):
            r = f(i)
            return None if r is None else (self.ws(r[0]), r[1])
        r = self.list1(self.ws(i + 1), self.comma, item)
        if r is None or not self.at(r[0], ">"):
            return None
        return r[0] + 1, r[1]

    def name_generic(self, i):
        r = self.ident(i)
        if r is None:
            return None
        i, nm = r
        g = self.args(i, self.type1)
        if g is None:
            return i, (nm, [])
        return g[0], (nm, g[1])

    def delim(self, i, o, f, c):
        if not self.at(i, o):
            return None
        r = f(self.ws(i + 1))
        if r is None:
            return None
        j = self.ws(r[0])
        if not self.at(j, c):
            return None
        return j + 1, r[1]

    def type2(self, i):
        r = self.value(i)
        if r is not None:
            return r[0], ("v", r[1])
        r = self.name_generic(i)
        if r is not None:
            return r[0], ("n", r[1][0], r[1][1])
        for o, f, c, k in (("(", self.ty, ")", "par"), ("{", self.group, "}", "map"), ("[", self.group, "]", "arr")):
            r = self.delim(i, o, f, c)
            if r is not None:
                return r[0], (k, r[1])
        if self.at(i, "~"):
            r = self.name_generic(self.ws(i + 1))
            if r is not None:
                return r[0], ("unw", r[1][0], r[1][1])
        if self.at(i, "&"):
            j = self.ws(i + 1)
            r = self.delim(j, "(", self.group, ")")
            if r is not None:
                return r[0], ("cfi", r[1])
            r = self.name_generic(j)
            if r is not None:
                return r[0], ("cf", r[1][0], r[1][1])
        return None

    def type1(self, i):
        r = self.type2(i)
        if r is None:
            return None
        i, a = r
        j = self.ws(i)
        if self.lit(j, "..."):
            op, j = "...", j + 3
        elif self.lit(j, ".."):
            op, j = "..", j + 2
        elif self.at(j, "."):
            r = self.ident(j + 1)
            if r is None:
                return i, ("s", a)
            j, op = r[0], ("op", r[1])
        else:
            return i, ("s", a)
        r = self.type2(self.ws(j))
        if r is None:
            return i, ("s", a)
        if type(op) is tuple:
            return r[0], ("ctl", op[1], a, r[1])
        return r[0], ("rng", a, r[1], op == "..")

    # -------------------------------------------------------------- groups
    def occur(self, i):
        lo = self.uint(i)
        j = lo[0] if lo else i
        if self.at(j, "*"):
            hi = self.uint(j + 1)
            if lo is None and hi is None:
                return j + 1, ("*",)
            a = self.intval(lo[1]) if lo else 0
            b = self.intval(hi[1]) if hi else U64
            return hi[0] if hi else j + 1, ("n", a, b)
        if self.at(i, "+"):
            return i + 1, ("+",)
        if self.at(i, "?"):
            return i + 1, ("?",)
        return None

    def entry(self, i):
        o = None
        r = self.occur(i)
        if r is not None:
            i, o = self.ws(r[0]), r[1]
        r = self.member(i)
        if r is not None:
            return r[0], (o, r[1])
        r = self.delim(i, "(", self.group, ")")
        if r is not None:
            return r[0], (o, ("pg", r[1]))
        return None

    def member(self, i):
        r = self.type1(i)
        if r is None:
            return None
        i, t = r
        i = self.ws(i)
        if t[0] == "s" and t[1][0] in ("v", "n") and self.at(i, ":"):
            r = self.ty(self.ws(i + 1))
            if r is not None:
                x = t[1]
                if x[0] == "n" and x[2]:
                    raise Fail("Unparseable")
                k = ("v", x[1]) if x[0] == "v" else ("bw", x[1])
                return r[0], ("mem", (k, True), r[1])
        cut = self.at(i, "^")
        j = self.ws(i + 1) if cut else i
        if self.lit(j, "=>"):
            r = self.ty(self.ws(j + 2))
            if r is not None:
                return r[0], ("mem", (("t1", t), cut), r[1])
        out = [t]
        while True:
            j = self.sep("/")(i)
            if j is None:
                break
            r = self.type1(j)
            if r is None:
                break
            i = r[0]
            out.append(r[1])
        return i, ("mem", None, out)

    def choice(self, i):
        out = []
        while True:
            r = self.entry(i)
            if r is None:
                return i, out
            i = self.optcom(r[0])
            out.append(r[1])

    def group(self, i):
        i, x = self.choice(i)
        out = [x]
        while True:
            j = self.sep("//")(i)
            if j is None:
                return i, out
            i, x = self.choice(j)
            out.append(x)

    # -------------------------------------------------------------- rules
    def rule(self, i):
        r = self.ident(i)
        if r is None:
            return None
        i, nm = r
        g = self.args(i, self.ident)
        ps = []
        if g is not None:
            i, ps = g
        i = self.ws(i)
        if not self.at(i, "="):
            return None
        i = self.ws(i + 1)
        r = self.ty(i)
        if r is not None:
            return r[0], (nm, ps, ("t", r[1]))
        r = self.entry(i)
        if r is not None:
            return r[0], (nm, ps, ("g", r[1]))
        return None

    def cddl(self):
        """[(start, end, rule)]; Fail when not a CDDL text"""
        i = self.ws(0)
        out = []
        while True:
            r = self.rule(i)
            if r is None:
                break
            out.append((i, r[0], r[1]))
            i = self.ws(r[0])
        if not out or i != self.n:
            raise Fail("Unparseable")
        return out


def fieldix(P, tid, name):
    for i, (n, _) in enumerate(P.types[tid]["v"][0]["f"]):
        if n == name:
            return i
    raise KeyError("field " + name)


def mkcells(E, ob):
    return [c if type(c) is int else E.int_var(c[0], c[1]) for c in ob["cells"]]


def err_kind(P, E, e):
    """variant name of a ParseError's kind"""
    k = e.f[fieldix(P, P.adt("parser::parse_err::ParseError"), "kind")]
    E.force(k)
    return P.vname(k)


def check(P, ob, fuel=400000, max_paths=6000, deadline=None):
    """ob: dict(cells=[int | (lo, hi)], entry="parse_cddl" | "slice_parse_cddl")"""
    A = flat.Ast(P)
    entry = ob.get("entry", "parse_cddl")
    fn = P.byname.get("cddl_cat::parser::" + entry)
    if fn is None or not fn.has:
        raise KeyError("parser entry point " + entry)
    st = dict(paths=0, decided=0, undecided=0, infeasible=0, imprecise=0, budget=0)
    bad, und, touched = [], {}, set()

    def body(E):
        cs = mkcells(E, ob)
        try:
            r = P.run(E, fn, [input_text(E, cs)])
        except Panic as e:
            return ("panic", e.kind, e.site), ("result",)
        except Diverge:
            return ("diverge",), ("result",)
        E.calls = []
        R = Ref_(E, cs)
        try:
            want = R.cddl()
            wk = None
        except Fail as e:
            want, wk = None, e.kind
        except DontCare:
            return ("any",), ("any",)
        E.force(r)
        if r.var == 1:
            k = err_kind(P, E, r.f[0])
            if want is not None:
                return ("error", k), ("accept",)
            return ("error", k), ("error", wk)
        if want is None:
            return ("accept",), ("error", wk)
        got = flat.unwrapv(r.f[0])
        rules = got.f[0].l
        if len(rules) != len(want):
            return ("%d rules" % len(rules),), ("%d rules" % len(want),)
        for g, (a, b, w) in zip(rules, want):
            if entry.startswith("slice"):
                s, g = text(g.f[1]), g.f[0]
                t = textm.tx(s)
                if t is None or t[0].id != "input":
                    if not E.streq(s, mktext(E, cs[a:b])):
                        return ("rule with another text",), ("rule text",)
                elif t[1] != a or t[2] != b and t[2] not in ends(R, a, b):
                    return ("rule text %d..%d" % (t[1], t[2]),), ("rule text %d..%d" % (a, b),)
            if not flat.same(E, g, A.rule(w)):
                return ("tree %s" % core.show(g)[:300],), ("tree %s" % core.show(A.rule(w))[:300],)
        return ("same",), ("same",)

    fuel = max(fuel, 4000 * len(ob["cells"]))
    for E, (kind, r) in explore(P, body, fuel, max_paths, deadline):
        st["paths"] += 1
        touched |= E.touched
        if kind == "ok":
            cv, sv = r
            if cv == sv:
                st["decided"] += 1
            elif E.imprecise:
                st["imprecise"] += 1
            else:
                st["decided"] += 1
                path = replay(P, body, E.trace, fuel) if len(bad) < 3 else []
                bad.append(dict(code=cv, spec=sv, facts=describe(E), ob=ob, path=path[-60:], where=cv[2] if cv[0] == "panic" else site(path)))
        else:
            st[kind] += 1
            if kind == "undecided":
                und[r] = und.get(r, 0) + 1
    return st, bad, und, touched


def ends(R, a, b):
    """acceptable ends of a rule's source text: trailing white space and comments are optional"""
    t = b
    for k in range(b - 1, a, -1):
        if R.ws(k) >= b:
            t = k
    return range(t, R.ws(b) + 1)


def show(ob):
    s = render(ob["cells"])
    if len(s) > 200:
        s = "%s..(%d characters)..%s #%d" % (s[:60], len(ob["cells"]), s[-60:], sum((i + 1) * (c if type(c) is int else c[0]) for i, c in enumerate(ob["cells"])) % 9973)
    return "%s(%s)" % (ob.get("entry", "parse_cddl"), s)


def render(cells):
    o = ""
    for c in cells:
        if type(c) is int:
            ch = chr(c)
            o += ch if ch.isprintable() else "\\u{%x}" % c
        else:
            o += "\u27e8%x-%x\u27e9" % c
    return repr(o)[1:-1].replace("\\\\", "\\")


# ------------------------------------------------------------- obligations
CTX = ["a=X", "a = X / b", "a = b / X", "a = X..9", "a = 1..X", "a = 1...X", "a = X...9", "a=X .size 3", "a = b .lt X", "a=[X]", "a={X}", "a={k:X}", "a = { k : X }",
       "a={X=>b}", "a = {X ^ => b}", "a={X:b}", "a={c=>X}", "a={c^=>X}", "a=[b,X]", "a=[X, b]", "a=[X b]", "a=[b X]", "a=[b//X]", "a=[X // b]", "a=[//X]",
       "a=(X)", "a=((X))", "a=&(X)", "a=&( k:X )", "a=b<X>", "a=b<c,X>", "a=b< X , c >", "a=&b<X>", "a=~b<X>", "a=[?X]", "a=[* X]", "a=[+X]", "a=[2*3 X]", "a=[2* X]",
       "a=[*3 X]", "a=[0x2*0b11 X]", "a=[(X)]", "a=[(b,X)]", "a=[?(X)]", "a=[* ( X // b )]", "a=(b,X)", "a=(X,b)", "a=(k:X)", "a=?X", "a=? k:X", "a=* k=>X", "a=b c=X", "a=X c=d",
       "a<p>=X", "a<p,q>=X", "a = X ;c\nb=c", ";c\r\na=X", "a=[1:X]", "a=['k':X]", "a=[-1:X]", "a=[1.5:X]", "a={b:c,X}", "a={b:X,c}", "a={b:c/X}", "a={b=>X/c}", "a=[b/X]", "a=[X/b,c]", "a={? \"k\":X}",
       "a={[X]=>b}", "a={(X)=>b}", "a=[[X]]", "a={b:[X]}", "a=[{X}]", "a=[&(X)]", "a=[~b<X>]", "a=(b/X)", "a=b/(X)", "a=(X).lt 3", "a=[X..3]", "a=[1..X]", "a=[b .ge X]", "a={1..X=>b}"]
FILL = ["b", "1", "-1", "1.5", '"s"', "'s'", "h'0a'", "b64'AA=='", "b<c>", "(b)", "(b/c)", "{b}", "[b]", "~b", "& b", "&(b)", "1..2", "b .ne c", "b:c", "b=>c", "b^=>c", "?b", "*b", "b,c", "b//c", "", "b.c", "$b-1"]
BADLIT = ["99999999999999999999", "18446744073709551616", "-9223372036854775809", "0x1ffffffffffffffff", "1e999", "-1e999", "0x1.5", '"\\q"', "'\\q'", "h'0'", "h'zz'", "h'0\u00e9'",
          "b64'A'", "b64'????'", "b64'AB=='", "b64'AA'", '"\\ud800"', '"\\ud800\\u0041"', '"\\u00"', "99999999999999999999*b"]
GOODLIT = ["18446744073709551615", "-9223372036854775808", "18446744073709551616.5", "99999999999999999999e0", '"\\u00e9\\n\\t\\"\\/\\\\"', "'a\"\\'\\n'", "0xffffffffffffffff", "0b101", "1e308", "-0", "-0.0",
           "'\u00e9\U0010fffd'", '"\u00e9\U0010fffd"', '"\\ud83d\\ude00"', "h'0A 1f'", "h''", "b64''", "''", '""', "b64'-_AA'", "1.5e-3", "1e+5", "0", "-1.5"]

TOK = ["a=b", "a=b1", "a=b.c", "a=b-c", "a=$b", "a=@_", "a.b=c", "$a=b", "a=b--c", "a=b.1", "a<p>=p", "a=1", "a=0", "a=10", "a=-1", "a=0x1F", "a=0b10", "a=1.5", "a=1e5", "a=1e-5",
       "a=1.5e+3", "a=-1.5", 'a="s"', 'a=""', 'a="\\n"', 'a="\\u0041"', "a='s'", "a=''", "a='\\n'", "a=h'0a'", "a=h'0a 1f'", "a=b64'AAAA'", "a=b64'AA=='", "a=b64'AAA='", "a=[h b]", "a=[b64 b]"]
OPS = ["a=1..2", "a=1...2", "a=b .lt 3", "a=b.lt 3", "a=b/c", "a=[b//c]", "a=[?b]", "a=[*b]", "a=[+b]", "a=[1*b]", "a=[*2 b]", "a=[1*2 b]", "a={b:c}", "a={b=>c}", "a={b^=>c}", "a={b^ =>c}",
       "a={1:b}", "a=~b", "a=&b", "a=&(b)", "a=(b)", "a=(b,c)", "a=b<c>", "a<p>=b", "a=b<c,d>", "a<p,q>=b", "a=[(b)]", "a=[(b,c)]", "a=? b", "a=[b,c]", "a=[b c]", "a/=b", "a//=b", "a=b .size(1)", "a={? b:c}", "a={\"b\":c}"]
WHOLE = ["a=b", " a=b ", "a=b c=d", "a=b\nc=d\n", "a=[b] c=1", ";x\na=b;y", "a=b;y\nc=d", "a=b;y\r\nc=d", "a=\"s\" c='t'", "a=[b,,c]", "a=[b,]", "a=[,b]", "a={b:c,}", "a=(b,c) d=e", "", " ", ";c", "a", "a=", "a=b c", "a=b=c", "a=b)",
         "a=[b", "a=b]", "a=b;", "a=;x\nb", "a ;x\n=b", "a=[;x\nb]", "a=[b;x\n,c]", "a=b/;x\nc", "a=[b;]\nc]", "a=b\x00", "a=b c=[", "a=b,c=d", "a=b // c", "a=1 2", "a=1a", "a=1 b=2"]

CLASSES = [(0x80, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff)]
ASC = (0, 0x7f)


def O(cells, tags, entry="parse_cddl"):
    return (tags, dict(cells=list(cells), entry=entry))


def conc(s):
    return [ord(c) for c in s]


def edits(s, cls=ASC, lo=0, hi=None, what="si"):
    """every one-character substitution and insertion"""
    cs = conc(s)
    hi = len(cs) if hi is None else hi
    for i in range(lo, hi + 1):
        if "i" in what:
            yield cs[:i] + [cls] + cs[i:]
        if "s" in what and i < len(cs):
            yield cs[:i] + [cls] + cs[i + 1:]


def fam_tokens(tier):
    for s in TOK:
        k = s.index("=") + 1 if s.startswith(("a=", "$")) else 0
        for c in edits(s, ASC, k):
            yield O(c, "C27 C28 C30 " + ("num" if s[2:3].isdigit() or s[2:3] == "-" else ""))
        if s in ("a.b=c", "$a=b", "a<p>=p", "a=b"):
            for c in edits(s, ASC, 0, k):
                yield O(c, "C27 C29 C30")
        for cls in CLASSES:
            for c in edits(s, cls, k, None, "i" if tier == "quick" else "si"):
                yield O(c, "C27 C30")
    for s in ('a="%s"', "a='%s'", "a=h'%s'", "a=b64'%s'", ";%s\na=b", "a=b;%s"):
        for cls in CLASSES + [ASC, (0x10fffe, 0x10ffff), (0x7f, 0x7f), (0x80, 0x9f)]:
            p, q = s.split("%s")
            yield O(conc(p) + [cls] + conc(q), "C27 C28 C26 C30")
            yield O(conc(p) + [ord("x"), cls] + conc(q), "C27 C28 C30")
            yield O(conc(p) + [cls, cls] + conc(q), "C27 C28 C30") if cls != ASC else O(conc(p) + [ord("\\"), cls] + conc(q), "C27 C28 C30")
            yield O(conc(p) + [ord("\\"), cls] + conc(q), "C27 C28 C30")


D, H, B2, D1 = (48, 57), (48, 102), (48, 49), (49, 57)


def fam_literals(tier):
    v = lambda cs: O(conc("a=") + cs, "C28 C30 C34")
    big = tier != "quick"
    for neg in ([], [45]):
        for n in (1, 2, 3, 5):
            yield v(neg + [D1] + [D] * (n - 1))
        for n in (1, 2, 3):
            yield v(neg + conc("0x") + [H] * n)
            yield v(neg + conc("0b") + [B2] * n)
        for k in range(1, 20):
            yield v(neg + conc("18446744073709551615")[:k] + [D] + conc("18446744073709551615")[k + 1:])
        for k in range(1, 19):
            yield v(neg + conc("9223372036854775808")[:k] + [D] + conc("9223372036854775808")[k + 1:])
        for k in range(16):
            yield v(neg + conc("0x") + conc("7fffffffffffffff")[:k] + [H] + conc("ffffffffffffffff")[k + 1:])
            yield v(neg + conc("0x") + conc("8000000000000000")[:k] + [H] + conc("0000000000000001")[k + 1:])
        yield v(neg + conc("0x1") + [H] + conc("0" * 15))
        yield v(neg + conc("0x0") + [H] + conc("0" * 15))
        yield v(neg + conc("0b1") + [B2] + conc("0" * 63))
        yield v(neg + conc("0b1") + [B2] + conc("0" * 62))
        yield v(neg + [D1] + [D] * 19)
        yield v(neg + [D1] + [D] * 18)
        for f in ("1.§", "1.5§", "§.5", "1e§", "1e-§", "1e+§", "1.5e§", "0.§", "0e§", "§.§", "§e1", "1.§e2", "0x1e§", "12§.5", "1.§§", "§e§"):
            yield v(neg + [D if c == "§" else ord(c) for c in f])
    for q in "\"'":
        for body in ("\\u00§§", "\\u§041", "\\u0§41", "\\u00e§", "\\§", "x\\§y", "\\u004§\\n", "\\\\§", "\\u0041§", "\\ud83d\\ude0§", "\\ud83d§", "\\ud8§d\\ude00"):
            yield v(conc(q) + [ASC if c == "§" else ord(c) for c in body] + conc(q))
    for body in ("§", "0§", "§0", "0a§1", "0a 1§", " §0", "0§ 1", "0 §", "00 11 2§"):
        yield v(conc("h'") + [ASC if c == "§" else ord(c) for c in body] + conc("'"))
    yield v(conc("h'") + [H, H] + conc("'"))
    for body in ("§AAA", "A§AA", "AA§A", "AAA§", "AA§=", "AA=§", "A§==", "§A==", "AAAAA§==", "AAAA§A==", "AA==§", "§", "A§", "AA§", "AAAA§", "AA §A", "§===", "AAAA A§=="):
        yield v(conc("b64'") + [ASC if c == "§" else ord(c) for c in body] + conc("'"))
    for c in CTX:
        for f in BADLIT:
            yield O(conc(c.replace("X", f)), "C28 C34 C30 bad")
        for f in GOODLIT:
            yield O(conc(c.replace("X", f)), "C28 C30 good")


def fam_ops(tier):
    for s in OPS:
        for c in edits(s, ASC, 1):
            yield O(c, "C29 C30 sym")
    for c in CTX:
        for f in FILL:
            yield O(conc(c.replace("X", f)), "C29 C26 C30 conc")
    r = random.Random(11)
    combos = [(c, d, f) for c in CTX for d in CTX if d.startswith("a=") and " c=" not in d and "\n" not in d for f in FILL[:14]]
    for c, d, f in combos if tier != "quick" else r.sample(combos, 2500):
        yield O(conc(c.replace("X", d[2:].strip().replace("X", f))), "C29 C30 conc2")


def fam_whole(tier):
    for s in WHOLE:
        yield O(conc(s), "C26 C30")
        for c in edits(s, ASC, 0, None, "i"):
            yield O(c, "C26 C30 sym")
        for c in edits(s, ASC, 0, None, "s"):
            yield O(c, "C26 C30 sym2")
        for i in range(len(s) + 1):
            for cls in CLASSES[:1] + CLASSES[3:]:
                yield O(conc(s)[:i] + [cls] + conc(s)[i:], "C26 C30")
            for x in (" ", "\n", "\t", ";c\n", "\r\n", ",", "\u00a0", "\u0085", "\ufeff", ")", "x", "#"):
                yield O(conc(s[:i] + x + s[i:]), "C26 C30 conc")
        for x in ("\t", "#", "\u00a0", "]", "=", "\x00"):
            yield O(conc(s + x), "C26 C30 conc")


def fam_any(tier):
    """texts of unknown characters"""
    R = [(0, 31), (32, 47), (48, 57), (58, 64), (65, 90), (91, 96), (97, 122), (123, 127)]
    yield O([ASC], "C30 C26 any")
    yield O([ASC, ASC], "C30 C26 any")
    for a in R:
        yield O([a, ord("="), ASC], "C30 C26 any")
        yield O([a, ASC, ASC], "C30 C26 any")
        yield O([97, 61, a, ASC], "C30 C29 C27 any2")
        yield O([97, 61, 91, a, ASC, 93], "C30 C29 any2")
        if tier != "quick":
            for b in R:
                yield O([97, 61, a, b, ASC], "C30 C29 C27 any3")
                yield O([97, 61, a, b, ASC, 93], "C30 any3")
                yield O([97, 61, 91, a, b, ASC, 93], "C30 any3")
                yield O([97, 61, 123, a, 58, b, ASC, 125], "C30 any3")


def fam_long(tier):
    """long texts: whatever is cut or counted at some length, at every alignment of wider characters"""
    N = 150 if tier == "quick" else 600
    wide = ["a", "\u00e9", "\u20ac", "\U0001f600"]

    def m(s, p="C26 C27 C28 C30 C34"):
        return O(conc(s), p + " must")
    fills = [("x" * k) + c * (N // len(c.encode())) for c in wide for k in range(len(c.encode()))]
    for f in fills:
        yield m('a="%s"' % f)
        yield m('a="%s\\q"' % f)                   # malformed escape after it
        yield m('a="\\q%s"' % f)
        yield m("a='%s'" % f)
        yield m("a='%s\\u00'" % f)
        yield m('a="%s' % f)                         # not closed
        yield m("a=h'0%s'" % f)
        yield m("a=h'%s'" % f)
        yield m("a=b64'%s'" % f)
        yield m("a=b64'A%s'" % f)
        yield m(";%s\na=b" % f)
        yield m("a=b;%s" % f)
        yield m("a=b )%s" % f)
        yield m("a=b %s" % f)
        yield m("a=[b %s]" % f)
        yield m("a=99999999999999999999%s" % f)
        yield m("a=1e999 ;%s" % f)
        yield m('a={"%s": b}' % f)
    n = 300 if tier == "quick" else 1200
    for s in ("%s=b", "a=%s", "a=$%s", "a<%s>=b", "a=[%s:b]", "a=&%s"):
        yield m(s % ("x" * n), "C27 C30 C29")
        yield m(s % ("x" + "-x" * (n // 2)), "C27 C30 C29")
    for s in ("a=%s", "a=-%s", "a=1.%s", "a=[%s*b]"):
        yield m(s % ("1" * n), "C28 C30 C34")
        yield m(s % ("0" * n), "C28 C30 C34")
    yield m("a=0x%s1" % ("0" * n), "C28 C30 C34")
    yield m("a=0b%s" % ("01" * 32), "C28 C30 C34")
    yield m("a=h'%s'" % ("0a" * n), "C28 C30 C34")
    yield m("a=h'%s'" % ("0a " * n), "C28 C30 C34")
    yield m("a=b64'%s'" % ("AAAA" * (n // 4)), "C28 C30 C34")
    yield m("a=b64'%s=='" % ("AAAA" * (n // 4) + "AA"), "C28 C30 C34")
    yield m('a="%s"' % ("\\n" * n), "C28 C30")
    yield m('a="%s"' % ("\\u00e9" * (n // 4)), "C28 C30")
    yield m("a=b%s" % (" " * n + ";c\n" * n), "C26 C30")
    k = 40 if tier == "quick" else 120
    yield m("a=" + "/".join("b%d" % i for i in range(k)), "C29 C30 C26")
    yield m("a=[" + ",".join("b%d" % i for i in range(k)) + "]", "C29 C30 C26")
    yield m("a=[" + "//".join("b%d" % i for i in range(k)) + "]", "C29 C30 C26")
    yield m("a={" + ",".join("b%d:c" % i for i in range(k)) + "}", "C29 C30 C26")
    yield m("a={" + " ".join("b%d=>c" % i for i in range(k)) + "}", "C29 C30 C26")
    yield m("a<" + ",".join("b%d" % i for i in range(k)) + ">=b", "C29 C30 C26")
    yield m("a=b<" + ",".join("b%d" % i for i in range(k)) + ">", "C29 C30 C26")
    yield m("\n".join("a%d=b" % i for i in range(k)), "C29 C30 C26 C25")
    yield m("\n".join("a%d=b" % i for i in range(k)) + "\n)", "C30 C26 C25")
    yield m(" ".join("a%d=b;c\n" % i for i in range(k)), "C29 C30 C26 C25")
    for d in (3, 6):
        yield m("a=" + "[" * d + "b" + "]" * d, "C29 C30 C26")
        yield m("a=" + "{k:" * d + "b" + "}" * d, "C29 C30 C26")
        yield m("a=" + "(" * d + "b" + ")" * d, "C29 C30 C26")
        yield m("a=" + "b<" * d + "c" + ">" * d, "C29 C30 C26")


FAMS = [fam_tokens, fam_literals, fam_ops, fam_whole, fam_any, fam_long]
CAP = {"quick": dict(sym=420, other=1400), "thorough": dict(sym=8000, other=40000)}


def obligations(prop, tier):
    """[(name, obligation)] for one property"""
    seen, sym, cc, must = set(), [], [], []
    want = {"C25": ("C26", "C29")}.get(prop, (prop,))
    for f in FAMS:
        for tags, o in f(tier):
            if not set(want) & set(tags.split()):
                continue
            if prop == "C25":
                o = dict(o, entry="slice_parse_cddl")
            k = (tuple(o["cells"]), o["entry"])
            if k in seen:
                continue
            seen.add(k)
            (must if "must" in tags else sym if any(type(c) is not int for c in o["cells"]) else cc).append((show(o), o))
    r = random.Random(7)
    cap = CAP[tier]
    if len(sym) > cap["sym"]:
        sym = r.sample(sym, cap["sym"])
    if len(cc) > cap["other"]:
        cc = r.sample(cc, cap["other"])
    return sorted(must + sym + cc, key=lambda x: -sum(type(c) is not int for c in x[1]["cells"]))


def keep(prop):
    def f(b):
        c, s = b["code"], b["spec"]
        if c[0] == "panic":
            return prop == "C30"
        if prop == "C30":
            return c[0] == "diverge"
        if c[0] == "error" and s[0] == "error":
            return prop in ("C34", "C28")
        if prop == "C34":
            return s[0] == "error" and s[1] != "Unparseable"
        return True
    return f
