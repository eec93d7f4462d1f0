"""Variations of structural obligations: the same shapes over data of every
kind, leaves spelled in every way, and longer data.

A structural obligation uses distinct opaque texts as data and opaque
predicates as leaves.  A variation replaces text i by a datum of another kind
(the same everywhere, in the schema's literal keys too) and each leaf by a type
accepting a chosen subset of the data, so that code treating one kind, or one
way of writing a type, differently from the others is told apart.  Everything
is known in a variation, so it is one abstract trace."""
import random

from absint.core import SymStr, SymBytes, FV
from absint.run import name_of


def fl(x):
    import struct
    return FV(bits=struct.unpack("<Q", struct.pack("<d", x))[0])


def datum(kind, i, deep=True):
    if kind == "texts":
        return ("t", i)
    if kind == "ints":
        return ("int", 10 * i + 5)
    if kind == "negative ints":
        return ("int", -1000 + i)
    if kind == "floats":
        return ("float", fl(i + 0.5))
    if kind == "bytes":
        return ("bytes", SymBytes("y%d" % i, {"rank": i}))
    if kind == "arrays":
        return ("arr", [("t", 200 + i)])
    if kind == "int arrays":
        return ("arr", [("int", 1), ("int", i)])
    if kind == "maps":
        return ("map", [(("t", 300), ("t", 200 + i))])
    if kind == "mixed":
        return MIX[i % len(MIX)](i)
    if kind == "mixed2":
        return MIX[(i * 3 + 1) % len(MIX)](i)
    raise KeyError(kind)


MIX = [lambda i: ("int", 10 * i + 5), lambda i: ("t", i), lambda i: ("bool", True) if i < 10 else ("bytes", SymBytes("y%d" % i, {"rank": i})),
       lambda i: ("arr", [("t", 200 + i)]), lambda i: ("float", fl(i + 0.5)), lambda i: ("null",) if i < 10 else ("int", -i),
       lambda i: ("bytes", SymBytes("y%d" % i, {"rank": i})), lambda i: ("map", [(("t", 300), ("t", 200 + i))])]
KINDS = ("ints", "negative ints", "floats", "bytes", "arrays", "int arrays", "maps", "mixed", "mixed2", "texts")


def dkey(d):
    """identity of a datum"""
    if d[0] == "bytes":
        return ("bytes", d[1].id)
    if d[0] == "float":
        return ("float", d[1].bits)
    if d[0] == "arr":
        return ("arr",) + tuple(dkey(x) for x in d[1])
    if d[0] == "map":
        return ("map",) + tuple((dkey(a), dkey(b)) for a, b in d[1])
    return d


class Vary:
    def __init__(self, o, rnd, kind):
        self.o, self.r, self.kind = o, rnd, kind
        self.n = 0
        self.env = {}
        self.leaves = {}
        self.atoms, self.katoms, self.vatoms = [], [], []
        self.data = self.d(o["data"])
        self.env.update({n: (ps, None) for n, (ps, nd) in o["env"].items()})
        for n, (ps, nd) in o["env"].items():
            self.env[n] = (ps, self.t(nd))
        self.root = (o["root"][0], self.t(o["root"][1]))

    def d(self, d):
        if d[0] == "t" and isinstance(d[1], int):
            x = datum(self.kind, d[1])
            self.atoms.append(x)
            return x
        if d[0] == "arr":
            x = ("arr", [self.d(y) for y in d[1]])
        elif d[0] == "map":
            x = ("map", [(self.d(a), self.d(b)) for a, b in d[1]])
            self.katoms += [a for a, _ in x[1]]
            self.vatoms += [b for _, b in x[1]]
            ks = [dkey(a) for a, _ in x[1]]
            if len(set(ks)) < len(ks):
                raise ValueError("keys coincide")
        elif d[0] == "bytes" and d[1].info and "tmpl" in d[1].info:
            raise ValueError("encoded data")
        else:
            return d
        return x

    def exact(self, d):
        """a type accepting exactly this datum"""
        r = self.r.random()
        k = d[0]
        if k == "t":
            from absint.build import txt
            t = ("lit", txt(d[1]))
        elif k == "null":
            return ("prel", "Nil")
        elif k == "arr":
            t = ("arr", [self.exact(x) for x in d[1]])
        elif k == "map":
            t = ("map", [("kv", self.exact(a), self.exact(b), self.r.random() < 0.5) for a, b in d[1]])
        else:
            t = ("lit", d[1])
        return self.spell(t, r)

    def kindtype(self, d):
        P = {"t": "Tstr", "null": "Nil", "bool": "Bool", "float": "Float", "bytes": "Bstr"}
        if d[0] in P:
            return ("prel", P[d[0]])
        if d[0] == "int":
            return ("prel", self.r.choice(["Int", "Uint" if d[1] >= 0 else "Nint"]))
        if d[0] == "arr":
            return ("arr", [("occ", ("*",), ("prel", "Any"))])
        return ("map", [("occ", ("*",), ("kv", ("prel", "Any"), ("prel", "Any"), self.r.random() < 0.5))])

    def spell(self, t, r):
        """the same type written another way"""
        if r < 0.6:
            return t
        self.n += 1
        n = "v%d" % self.n
        if r < 0.75:
            self.env[n] = ([], t)
            return ("rule", n)
        if r < 0.85:
            return ("choice", [t])
        if r < 0.92:
            self.env[n] = (["P"], ("rule", "P"))
            return ("rule", n, t)
        if t[0] == "lit" and isinstance(t[1], int) and not isinstance(t[1], bool):
            return ("range", t, t, True)
        return t

    def leaf(self):
        r = self.r.random()
        at = self.atoms
        if not at or r < 0.06:
            return self.spell(("lit", "never"), r * 16)
        if r < 0.16:
            return self.spell(("prel", "Any"), (r - 0.06) * 10)
        if r < 0.40:
            return self.spell(self.kindtype(self.r.choice(at)), self.r.random())
        k = self.r.randint(1, min(len(at), 3))
        ds = self.r.sample(at, k)
        if len(ds) == 1:
            return self.exact(ds[0])
        return self.spell(("choice", [self.exact(d) for d in ds]), self.r.random())

    def t(self, x):
        k = x[0]
        if k == "re":
            if x[1] not in self.leaves:
                self.leaves[x[1]] = self.leaf()
            return self.leaves[x[1]]
        if k == "kv":
            key = x[1]
            save, self.atoms = self.atoms, self.katoms or self.atoms
            if key[0] == "lit" and isinstance(key[1], SymStr) and key[1].id.startswith("t"):
                key = self.keylit(datum(self.kind, int(key[1].id[1:])))
            else:
                key = self.t(key)
            self.atoms = self.vatoms or save
            v = self.t(x[2])
            self.atoms = save
            return ("kv", key, v, x[3])
        if k in ("grp", "arr", "map", "choice", "cfyi"):
            return (k, [self.t(y) for y in x[1]])
        if k == "occ":
            return ("occ", x[1], self.t(x[2]))
        if k == "ctl":
            return ("ctl", x[1], self.t(x[2]), self.t(x[3]))
        if k == "range":
            return ("range", self.t(x[1]), self.t(x[2]), x[3])
        if k in ("rule", "unwrap", "cfy") and len(x) > 2:
            return x[:2] + tuple(self.t(y) for y in x[2:])
        return x

    def keylit(self, d):
        from absint.build import txt
        if d[0] == "t":
            return ("lit", txt(d[1]))
        if d[0] in ("int", "float", "bytes", "bool"):
            return ("lit", d[1])
        return self.exact(d)


def vary(named, seed, n, kinds=KINDS):
    """n variations of (name, obligation) pairs"""
    r = random.Random(seed)
    base = [x for x in named if not callable(x[1]) and x[1]["data"][0] in ("arr", "map", "t")]
    out, seen = [], set()
    tries = 0
    while len(out) < n and tries < 4 * n and base:
        tries += 1
        nm, o = base[r.randrange(len(base))]
        k = kinds[tries % len(kinds)]
        try:
            v = Vary(o, r, k)
        except ValueError:
            continue
        ob = dict(o, env=v.env, root=v.root, data=v.data)
        m = name_of(ob)
        if m not in seen:
            seen.add(m)
            out.append((m, ob))
    return out


# ------------------------------------------------------------- longer data
def long_data(r, n, isarr):
    """n data whose kinds repeat with a short period"""
    p = r.choice([["int"], ["t"], ["int", "t"], ["int", "int", "t"], ["t", "arr"], ["int", "t", "bool"]])
    out = []
    for i in range(n):
        k = p[i % len(p)]
        out.append({"int": ("int", i), "t": ("t", i), "arr": ("arr", [("int", i)]), "bool": ("bool", i % 2 == 0)}[k])
    return out


class Long(Vary):
    """a shape over long data: leaves are kinds or rare single data"""

    def __init__(self, o, rnd, n):
        self.size = n
        Vary.__init__(self, o, rnd, "long")

    def d(self, d):
        if d[0] == "arr":
            self.atoms = long_data(self.r, self.size, True)
            return ("arr", self.atoms)
        if d[0] == "map":
            vs = long_data(self.r, self.size, False)
            base = self.r.choice(("int", "t", "t"))
            es = [(("int", i) if base == "int" or self.r.random() < 0.2 else ("t", i), v) for i, v in enumerate(vs)]
            self.atoms = vs + [a for a, _ in es]
            self.keys = self.katoms = [a for a, _ in es]
            self.vatoms = vs
            return ("map", es)
        raise ValueError("scalar")

    def leaf(self):
        r = self.r.random()
        if r < 0.2:
            return self.spell(("prel", "Any"), self.r.random())
        if r < 0.65:
            return self.spell(self.kindtype(self.r.choice(self.atoms)), self.r.random())
        if r < 0.75:
            return self.exact(self.r.choice(self.atoms))
        ks = [self.kindtype(self.r.choice(self.atoms)) for _ in range(2)]
        return self.spell(("choice", ks), self.r.random())

    def keylit(self, d):
        return Vary.keylit(self, self.r.choice(self.keys))

    def t(self, x):
        if x[0] == "kv" and x[1][0] == "lit" and isinstance(x[1][1], SymStr):
            if not hasattr(self, "keys"):
                return ("kv", x[1], self.t(x[2]), x[3])
            save, self.atoms = self.atoms, self.vatoms
            v = self.t(x[2])
            self.atoms = save
            return ("kv", self.keylit(None), v, x[3])
        if x[0] == "occ" and x[1][0] == "n" and x[1][2] > 0 and self.r.random() < 0.7:
            a = self.r.choice((x[1][1], self.size - 1, self.size, self.size // 2, 0))
            b = self.r.choice((self.size, self.size + 1, self.size - 1, self.size // 2, 1000, (1 << 64) - 1))
            return ("occ", ("n", max(0, a), max(0, b)), self.t(x[2]))
        return Vary.t(self, x)


def longer(named, seed, n, lens=(5, 7, 8, 9, 16, 17, 20)):
    r = random.Random(seed)
    base = [x for x in named if not callable(x[1]) and x[1]["data"][0] in ("arr", "map") and x[1]["root"][1][0] == x[1]["data"][0]]
    # shapes with a repetition are the ones that can take long data
    base = [x for x in base if any(s in x[0] for s in ("*", "+"))]
    out, seen = [], set()
    tries = 0
    while len(out) < n and tries < 4 * n and base:
        tries += 1
        nm, o = base[r.randrange(len(base))]
        try:
            v = Long(o, r, r.choice(lens))
        except ValueError:
            continue
        ob = dict(o, env=v.env, root=v.root, data=v.data)
        m = name_of(ob)
        if m not in seen:
            seen.add(m)
            out.append((m, ob))
    return out
