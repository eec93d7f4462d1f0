"""C31: an effect analysis over the MIR of every function of the library.

Rules (each violation names function, source line and callee / type):
  state     no reference to a thread-local, no static whose type has interior mutability
  effect    no call to an operation that reads or changes something outside the arguments
            (files, network, environment, clock, threads, process, standard streams, randomness, hooks)
  order     no iteration over a hash map or set whose order can reach the result
  address   no address turned into a number, other than to take the distance of two addresses
  unsafe    no user-written unsafe code
  frozen    no interior mutability in the schema, value, context, syntax tree or error types"""
import re

from absint import dump, run

EFFECTS = ("std::fs", "std::net", "std::env", "std::process", "std::thread", "std::io::_print", "std::io::_eprint", "std::io::stdin", "std::io::stdout", "std::io::stderr",
           "std::io::stdio", "std::time::SystemTime::now", "std::time::Instant::now", "std::panic::set_hook", "std::panic::take_hook", "std::panic::update_hook", "std::alloc::set_alloc_error_hook",
           "std::os::", "std::random", "std::hash::RandomState", "std::collections::hash_map::RandomState", "std::hash::random", "std::collections::hash::", "rand", "getrandom", "fastrand",
           "std::backtrace", "std::thread::LocalKey", "libc::", "std::sync::Once", "std::sync::LazyLock", "std::sync::OnceLock", "std::alloc::System", "std::intrinsics::volatile", "core::intrinsics::volatile",
           "std::ptr::read_volatile", "std::ptr::write_volatile")
HASHITER = ("iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "retain", "extract_if", "into_iter", "difference", "intersection", "union", "symmetric_difference")
HASH = ("HashMap", "HashSet")
UNORDERED_OK = ("all", "any", "count", "sum", "product", "min", "max", "len", "size_hint")
ORDERED = ("next", "for_each", "fold", "try_fold", "try_for_each", "find", "find_map", "position", "last", "nth", "reduce", "map_while", "take_while", "skip_while", "min_by", "max_by", "min_by_key", "max_by_key",
           "zip", "enumerate", "take", "skip", "partition", "cmp", "eq", "peekable", "unzip", "chain")
MUTABLE = re.compile(r"(^|::)(UnsafeCell|Cell|RefCell|OnceCell|LazyCell|Mutex|RwLock|OnceLock|LazyLock|Once|Condvar|Barrier|SyncUnsafeCell|Atomic[A-Z]\w*|LocalKey|ReentrantLock)$")
LEAF = ("regex::Regex", "std::string::String")
STDC = ("Vec", "Box", "BTreeMap", "Option", "Rc", "Arc", "VecDeque", "HashMap", "HashSet", "BTreeSet", "Cow")


def interior(P, t, seen=None, path=()):
    """path to interior mutability inside a type, or None"""
    seen = set() if seen is None else seen
    if t in seen or t is None:
        return None
    seen.add(t)
    ti = P.types[t]
    if ti is None:
        return None
    k = ti["k"]
    if k in ("ref", "ptr", "slice", "array"):
        return interior(P, ti["e"], seen, path)
    if k == "tuple":
        for x in ti["f"]:
            r = interior(P, x, seen, path)
            if r:
                return r
        return None
    if k != "adt":
        return None
    nm = ti["name"]
    if MUTABLE.search(nm.split("<")[0]):
        return path + (nm,)
    if nm in LEAF:
        return None
    short = nm.split("<")[0].split("::")[-1]
    if ti["crate"] in ("std", "alloc", "core") and (short in STDC or ti["box"]):
        for x in ti["args"]:
            r = interior(P, x, seen, path)
            if r:
                return r
        return None
    for v in ti["v"]:
        for fn, ft in v["f"]:
            r = interior(P, ft, seen, path + ("%s.%s" % (nm.split("::")[-1], fn),))
            if r:
                return r
    return None


def operands(x):
    """operands (['c'|'m'|'k', ..]) inside an encoded rvalue / terminator"""
    if isinstance(x, dict):
        for v in x.values():
            yield from operands(v)
    elif isinstance(x, list):
        if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list) or len(x) == 2 and x[0] == "k" and isinstance(x[1], dict):
            yield x
            return
        for v in x:
            yield from operands(v)


def statics_in(v, out):
    if isinstance(v, dict):
        if "static" in v:
            out.append(v["static"])
        for x in v.values():
            statics_in(x, out)
    elif isinstance(v, list):
        for x in v:
            statics_in(x, out)


def strip_refs(P, t):
    while t is not None and P.types[t] and P.types[t]["k"] in ("ref", "ptr"):
        t = P.types[t]["e"]
    return t


def is_hash(P, t):
    t = strip_refs(P, t)
    return t is not None and P.types[t] and P.types[t]["k"] == "adt" and P.types[t]["name"].split("<")[0].split("::")[-1] in HASH


def check_fn(P, f, stat, add):
    d = f.d
    calls = []
    exposed = {}
    uses = {}
    for bi, b in enumerate(d["blocks"]):
        sp = b.get("sp", d["span"])
        for s in b["s"]:
            if s[0] == "=":
                rv = s[2]
                if rv[0] == "tls":
                    add("state", f, sp, "thread-local %s" % rv[1])
                if rv[0] == "cast" and ("ExposeProvenance" in rv[1] or "PointerExpose" in rv[1]) and not s[1][1]:
                    exposed.setdefault(s[1][0], sp)
                if rv[0] == "cast" and "Transmute" in rv[1]:
                    so = P.otype(f, rv[2])
                    if so is not None and P.types[so]["k"] in ("ptr", "ref", "fnptr") and P.types[rv[3]]["k"] in ("int", "uint"):
                        add("address", f, sp, "transmute of an address")
                for o in operands(rv):
                    if o[0] == "k":
                        st = []
                        statics_in(o[1]["v"], st)
                        for x in st:
                            ref_static(P, f, sp, x, stat, add)
                    else:
                        uses.setdefault(o[1][0], []).append((rv[0], rv[1] if rv[0] in ("bin", "cbin") else None, s[1], rv))
            for_sp = sp
        t = b["t"]
        for o in operands(t):
            if o[0] == "k":
                st = []
                statics_in(o[1]["v"], st)
                for x in st:
                    ref_static(P, f, sp, x, stat, add)
            else:
                uses.setdefault(o[1][0], []).append(("call" if t[0] == "call" else t[0], t[1]["decl"] if t[0] == "call" else None, None, t))
        if t[0] == "asm":
            add("unsafe", f, sp, "inline assembly")
        if t[0] != "call":
            continue
        c = t[1]
        nm = c["decl"] or ""
        full = c["name"] or nm
        calls.append((nm, c, sp))
        for e in EFFECTS:
            if (nm.startswith(e) and (e.endswith("::") or nm[len(e):len(e) + 1] in ("", ":", "<"))) or ("<" + e in full.split(" as ")[0] and e not in ("std::collections::hash::",) and nm.split("::")[-1] not in ("clone", "fmt", "drop")):
                if nm.startswith("std::process") and nm not in ("std::process::exit", "std::process::abort") and not nm.startswith(("std::process::Command", "std::process::id", "std::process::Child")):
                    continue
                if nm.startswith("std::collections::hash::"):
                    continue
                add("effect", f, sp, nm)
                break
    hs = [(nm, c, sp) for nm, c, sp in calls if nm.split("::")[-1] in HASHITER and ((nm.startswith("std::collections::Hash")) or (nm.startswith("std::iter::IntoIterator") and c["ta"] and is_hash(P, c["ta"][0])))]
    if hs:
        cons = {nm.split("::")[-1] for nm, c, sp in calls if nm.startswith("std::iter::Iterator::")}
        bad = cons & set(ORDERED)
        for nm, c, sp in calls:
            if nm in ("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter", "std::iter::Extend::extend"):
                r = c["ta"][1] if nm.endswith("collect") and len(c["ta"]) > 1 else c["ta"][0] if c["ta"] else None
                if not unordered_target(P, r):
                    bad = bad | {"collect into a sequence"}
        if bad or any(nm.split("::")[-1] in ("retain", "drain") for nm, c, sp in hs):
            add("order", f, hs[0][2], "%s, then %s" % (hs[0][0], "/".join(sorted(bad)) or "removal in iteration order"))
    # addresses: only differences of two of them
    derived = dict(exposed)
    for l, sp in exposed.items():
        for k, op, dst, rv in uses.get(l, []):
            if k in ("bin", "cbin") and op in ("Sub", "SubUnchecked", "Lt", "Le", "Gt", "Ge", "Eq", "Ne", "Cmp"):
                a = [o[1][0] for o in operands(rv) if o[0] != "k"]
                if len(a) == 2 and all(flows(P, f, x, exposed, uses) for x in a):
                    continue
            if k in ("use",):
                tgt = dst[0]
                if all(k2 in ("bin", "cbin") and op2 in ("Sub", "SubUnchecked", "Lt", "Le", "Gt", "Ge", "Eq", "Ne", "Cmp") for k2, op2, _, _ in uses.get(tgt, [])):
                    continue
            if k == "call" and op and op.split("::")[-1] in ("wrapping_sub", "checked_sub", "saturating_sub", "abs_diff"):
                continue
            add("address", f, sp, "an address used as a number (%s)" % (op or k))
            break


def flows(P, f, l, exposed, uses):
    if l in exposed:
        return True
    return any(k == "use" and dst and dst[0] == l for x in exposed for k, op, dst, rv in uses.get(x, []))


def unordered_target(P, t):
    if t is None:
        return False
    ti = P.types[t]
    if ti["k"] != "adt":
        return False
    n = ti["name"].split("<")[0].split("::")[-1]
    if n in ("Result", "Option") and ti["args"]:
        return unordered_target(P, ti["args"][0])
    return n in ("BTreeMap", "BTreeSet", "HashMap", "HashSet")


def ref_static(P, f, sp, name, stat, add):
    t = stat.get(name)
    if t is None:
        if name in stat or not any(name.startswith(x) for x in ("std::", "core::", "alloc::", "base64::", "nom::", "regex")):
            pass
        return
    r = interior(P, t)
    if r:
        add("state", f, sp, "static %s with interior mutability (%s)" % (name, " > ".join(r)))


ROOTS = ["ivt::RuleDef", "ast::Cddl", "ast::CddlSlice", "value::Value", "context::BasicContext", "util::ValidateError", "parser::parse_err::ParseError"]


def c31(tier):
    P = run.load()
    R = run.Result("C31", tier)
    stat = {s[0]: s[2] for s in P.statics}
    fns = [f for f in P.fns if f.local and f.has]
    if len(fns) < 100:
        raise dump.NoAnswer("only %d functions of the library were extracted" % len(fns))

    def add(rule, f, sp, what):
        R.violation("%s: %s in %s" % (rule, what, f.name), "%s (%s)" % (f.name, sp))
    for f in fns:
        R.obl += 1
        R.decided += 1
        R.touched.add(f.name)
        check_fn(P, f, stat, add)
    for n, sp, t in P.statics:
        R.obl += 1
        R.decided += 1
        r = interior(P, t)
        if r:
            R.violation("state: static %s has interior mutability (%s)" % (n, " > ".join(r)), "%s (%s)" % (n, sp))
    for n in ROOTS:
        R.obl += 1
        R.decided += 1
        r = interior(P, P.adt(n))
        if r:
            R.violation("frozen: %s contains interior mutability (%s)" % (n, " > ".join(r)), n)
    log = dump.dump("default")[:-5] + ".log"
    txt = open(log).read()
    R.obl += 1
    R.decided += 1
    for m in re.finditer(r"warning: (usage of an `unsafe` block|declaration of an `unsafe`[^\n]*|implementation of an `unsafe`[^\n]*|[^\n]*`unsafe`[^\n]*)\n\s*--> ([^\n]+)", txt):
        R.violation("unsafe: %s" % m.group(1), m.group(2))
    R.add("functions", len(fns))
    R.add("call_sites", sum(b["t"][0] == "call" for f in fns for b in f.d["blocks"]))
    R.add("statics", len(P.statics))
    R.add("root_types", len(ROOTS))
    R.samples = [f.name for f in fns[:: max(1, len(fns) // 8)]]
    return R.finish("other", __doc__, floor=100)
