"""Systematic enumeration of schema shapes with opaque leaves.

A shape is a template (see absint/build.py) whose leaves are ('L',) — numbered
afterwards, each becoming a distinct opaque type — and whose rule references
carry their definition inline as ('R', kind, body); `finish` names them."""
import functools
import itertools
import random

OCC = [("?",), ("*",), ("+",), ("n", 0, 0), ("n", 2, 2), ("n", 1, 2), ("n", 0, 2)]
L = ("L",)


def parts(n, k):
    """compositions of n into k positive parts"""
    if k == 1:
        yield (n,)
        return
    for a in range(1, n - k + 2):
        for r in parts(n - a, k - 1):
            yield (a,) + r


class Shapes:
    """members / sequences by size.  kinds: enabled constructors."""

    def __init__(self, kinds, occs=OCC, leaf=(L,), arrkv=False):
        self.kinds, self.occs, self.leaf = frozenset(kinds), occs, leaf
        self.m = functools.lru_cache(None)(self._m)
        self.s = functools.lru_cache(None)(self._s)

    def _s(self, n):
        """member sequences of total size n"""
        if n == 0:
            return [()]
        out = []
        for k in range(1, n + 1):
            for p in parts(n, k):
                for c in itertools.product(*[self.m(x) for x in p]):
                    out.append(tuple(c))
        return out

    def _m(self, n):
        K = self.kinds
        if n == 1:
            out = list(self.leaf)
            if "empty" in K:
                out.append(("grp", ()))
            return out
        out = []
        if "occ" in K:
            for o in self.occs:
                out += [("occ", o, x) for x in self.m(n - 1) if x[0] != "occ"]
        for k, w in (("grp", "grp"), ("unwrap", "unwrap"), ("gref", "gref")):
            if k in K:
                for s in self.s(n - 1):
                    if k == "grp" and len(s) == 1 and s[0][0] in ("grp",):
                        continue
                    out.append((w, s))
        if "mref" in K and n == 2:
            out += [("mref", x) for x in self.m(1)]
        if "gchoice" in K and n >= 3:
            for a, b in parts(n - 1, 2):
                for x in self.s(a):
                    for y in self.s(b):
                        out.append(("choice", (("grp", x), ("grp", y))))
        if "tchoice" in K and n >= 3:
            for a, b in parts(n - 1, 2):
                for x in self.m(a):
                    for y in self.m(b):
                        if x[0] in ("L", "unwrap", "gref", "mref", "cfy", "cfyi", "arr", "map", "miss") and \
                                y[0] in ("L", "unwrap", "gref", "mref", "cfy", "cfyi", "arr", "map", "miss"):
                            out.append(("choice", (x, y)))
        if "cfyi" in K and n >= 3:
            for a, b in parts(n - 1, 2):
                for x in self.m(a):
                    for y in self.m(b):
                        if x[0] in ("L", "KV") and y[0] in ("L", "KV"):
                            out.append(("cfyi", (x, y)))
        if "cfy" in K:
            for s in self.s(n - 1):
                out.append(("cfy", s))
        if "arr" in K:
            out += [("arr", s) for s in self.s(n - 1)]
        return out


def has(t, k):
    if isinstance(t, tuple):
        return (len(t) > 0 and t[0] == k) or any(has(x, k) for x in t)
    return False


class Finisher:
    """number leaves, name inline references"""

    def __init__(self, ctx="arr"):
        self.i = 0
        self.env = {}
        self.ctx = ctx

    def leaf(self):
        self.i += 1
        return ("re", self.i - 1)

    def rule(self, parms, body):
        n = "r%d" % len(self.env)
        self.env[n] = None
        self.env[n] = (parms, self.t(body) if not isinstance(body, list) else body)
        return n

    def t(self, x):
        k = x[0]
        if k == "L":
            return self.leaf()
        if k == "KV":              # ('KV', key, value, cut)
            return ("kv", self.t(x[1]), self.t(x[2]), x[3])
        if k in ("grp", "arr", "map", "choice", "cfyi"):
            return (k, [self.t(y) for y in x[1]])
        if k == "occ":
            return ("occ", x[1], self.t(x[2]))
        if k == "unwrap":
            return ("unwrap", self.named((self.ctx, x[1])))
        if k == "gref":
            return ("rule", self.named(("grp", x[1])))
        if k == "mref":
            return ("rule", self.named(x[1]))
        if k == "cfy":
            return ("cfy", self.named(("grp", x[1])))
        if k == "miss":
            return ("rule", "missing%s" % (x[1] if len(x) > 1 else ""))
        if k == "ctl":
            return ("ctl", x[1], self.t(x[2]), self.t(x[3]))
        if k == "range":
            return ("range", self.t(x[1]), self.t(x[2]), x[3])
        if k == "rule" and len(x) > 2:
            return x[:2] + tuple(self.t(y) for y in x[2:])
        if k == "kvl":
            return ("kv", ("lit", x[1]), self.t(x[2]), x[3])
        return x

    def named(self, body):
        n = "r%d" % len(self.env)
        self.env[n] = None
        self.env[n] = ([], self.t(body))
        return n


def obligation(root, data, ctx="arr"):
    f = Finisher(ctx)
    r = f.t(root)
    return dict(env=f.env, root=([], r), data=data)


def texts(n, base=0):
    return [("t", base + i) for i in range(n)]


def sample(lst, n, seed):
    if len(lst) <= n:
        return list(lst)
    return random.Random(seed).sample(lst, n)
