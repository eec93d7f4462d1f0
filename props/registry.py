"""property id -> check"""
import random

from absint import run, vrun
from . import vsem, flat, conv, parse, entry, lint, cfgs

run.KINDS["flatten"] = (lambda P, o, **k: flat.check(P, o, **k), str)

run.KINDS["convert"] = (lambda P, o, **k: conv.check(P, o, **k), str)
run.KINDS["validate_json"] = (lambda P, o, **k: vrun.check(P, o, entry="json", **k), run.name_of)

run.KINDS["parse"] = (lambda P, o, **k: parse.check(P, o, **dict(k, fuel=400000, max_paths=6000)), parse.show)

run.KINDS["entry"] = (lambda P, o, **k: entry.check(P, o, **dict(k, fuel=600000, max_paths=6000)), entry.show)
run.KINDS["slice_flatten"] = (lambda P, o, **k: flat.check(P, o, slice_=True, **k), str)

PRULE = ("abstract interpretation of the MIR of the crate's parser and of the combinator library it calls, from the public parsing entry points, over texts whose "
         "characters are known or range over a whole UTF-8 length class; on every abstract trace the tree or error kind is compared with a reference parser")
VRULE = ("abstract interpretation of the crate's MIR (all of the library's own functions, standard library and dependencies modelled) from the "
         "public entry points, over schema shapes with opaque leaf types and symbolic scalars and data; every abstract trace's verdict is compared "
         "with the reference semantics of the property")

# which flattening constructs a property also depends on
FTAGS = dict(C04=["occur"], C05=["choice", "choiceify"], C06=["cut"], C07=["map cut", "array cut"], C08=["name"], C09=["value"], C10=["range"],
             C11=["lt", "le", "gt", "ge"], C12=["size"], C13=["regexp"], C14=["cbor"], C15=["generic"], C17=["unwrap", "group"], C03=["map", "array"])


def flatten_obs(prop, tier):
    obs = flat.obligations(tier)
    if prop == "C19":
        o = [x for x in obs if x[0].startswith("name")] + flat.table()
    elif prop in ("C20", "C21"):
        n = 9000 if tier == "quick" else 60000
        base, deep = [x for x in obs if "<- (" not in x[1]], [x for x in obs if "<- (" in x[1]]
        o = base[:] + deep if tier != "quick" else sub(base, 7000) + sub(deep, 3500)
        o += [x for x in obs if callable(x[2])]
    elif prop == "C18":
        o = sub(obs, 4000 if tier == "quick" else 40000)
    else:
        tags = FTAGS.get(prop)
        if not tags:
            return []
        o = [x for x in obs if any(set(t.split()) <= set(x[0].split()) for t in tags) and ("<-" not in x[1] or "<- ('n', 'foo', [])" in x[1] or prop in ("C13", "C14"))]
        o = sub(o, 1200 if tier == "quick" else 8000)
    return [(n, "flatten", r) for t, n, r in o]


def conversion_obs(prop, tier):
    if prop == "C22":
        o = conv.obligations("json", tier)
    elif prop == "C23":
        o = conv.obligations("cbor", tier)
    elif prop == "C18":
        o = sub(conv.obligations("json", tier), 300 if tier == "quick" else 3000) + sub(conv.obligations("cbor", tier), 600 if tier == "quick" else 6000)
    else:
        return []
    return [(n, "convert", x) for n, x in o]


def sub(l, n):
    return l if len(l) <= n else random.Random(5).sample(l, n)


def validation_obs(prop, tier):
    if prop == "C18":
        out = []
        for k in sorted(vsem.FAM):
            out += sub(vsem.FAM[k]("quick" if tier == "quick" else "thorough"), 1500 if tier == "quick" else 12000)
        return [(n, "validate", o) for n, o in out]
    if prop in vsem.FAM:
        return [(n, "validate", o) for n, o in vsem.FAM[prop](tier)]
    return []


def keep(prop):
    def f(b):
        panic = b["code"][0] == "panic"
        if prop == "C18":
            return panic
        if b["kind"] == "validate":
            return vsem.keep(prop)(b)
        if b["kind"] == "flatten":
            if panic:
                return False
            if prop == "C20":
                return not (b["spec"][0] == "error" and b["code"][0] == "error")
            if prop == "C21":
                return b["spec"][0] == "error" and b["code"][0] != "error"
            if prop == "C19":
                return True
        return True
    return f


def semantics(prop, tier):
    p = run.load()
    R = run.Result(prop, tier)
    obs = validation_obs(prop, tier) + flatten_obs(prop, tier) + conversion_obs(prop, tier)
    run.run_obligations(R, p, obs, budget=300 if tier == "quick" else 780, keep=keep(prop))
    R.samples = [o[0] for o in obs[:: max(1, len(obs) // 8)]]
    return R.finish("other", VRULE, floor=len(obs) * 6 // 10)


PARSER = ("C24", "C25", "C26", "C27", "C28", "C29", "C30", "C34")


def parser_keep(prop):
    k = parse.keep(prop)

    def f(b):
        return k(b) if b["kind"] == "parse" else b["code"][0] != "panic"
    return f


def parser(prop, tier):
    p = run.load()
    R = run.Result(prop, tier)
    obs = [(n, "parse", o) for n, o in parse.obligations(prop, tier)] + [(n, "entry", o) for n, o in entry.obligations(prop, tier)]
    if prop == "C25":
        o = [(n, "slice_flatten", r) for t, n, r in flat.obligations(tier) if "<-" not in n and not callable(r)]
        obs += sub(o, 600 if tier == "quick" else 6000)
    run.run_obligations(R, p, obs, budget=300 if tier == "quick" else 780, keep=parser_keep(prop))
    R.samples = [o[0] for o in obs[:: max(1, len(obs) // 8)]]
    return R.finish("other", PRULE, floor=len(obs) * 6 // 10)


SEMANTIC = ["C%02d" % i for i in range(1, 24)]


ALL = list(SEMANTIC) + list(PARSER) + ["C31", "C32", "C33"]
ALL.sort()
AI = ("abstract interpretation of the crate's rustc MIR (interprocedural, trace-partitioned; zone domain for integers and float order, "
      "equality/order facts for strings, lazily refined enum variants)")
PT = ("abstract interpretation of the rustc MIR of the parser and of the nom combinators it calls, over texts whose characters are intervals of code points, "
      "against a reference parser")
TECH = dict((p, PT) for p in PARSER)
TECH["C24"] = "relational abstract interpretation of the crate's MIR: each text/byte entry point and the composition of steps it stands for are run on one shared set of symbolic facts"
TECH["C25"] = PT + "; and relational comparison of the slice and plain flatteners"
TECH["C31"] = "effect and purity analysis over the MIR and types of every function of the crate (calls, statics, thread-locals, hash iteration, address use, interior mutability, unsafe code)"
TECH["C32"] = "type-level witness: a crate that compiles only if every public data type is Send + Sync + 'static (decided by rustc's trait solver)"
TECH["C33"] = "type checking of the four feature configurations with an entry-point witness, then abstract interpretation of each configuration's MIR"
PN = ("Static: no code of cddl-cat is executed. Decided for every choice of the unknown characters (each ranging over a whole UTF-8 length class or sub-range) in each of the enumerated text shapes; "
      "bounded text length; assumes the models of std, hex, base64 (absint/textm.py) and the reference parser in props/parse.py.")
NOTES = dict((p, PN) for p in PARSER)
NOTES["C31"] = "Static and complete over the crate's own functions; operations of std and the dependencies are judged by name, and assumed pure unless listed as having effects."
NOTES["C32"] = "Decided by the compiler for the types named in witness/src/lib.rs; complete for those types."
NOTES["C33"] = "Building and entry points are decided by the compiler for all four configurations; behaviour is decided by abstract interpretation for the enumerated shapes, as for C01-C30."
LEVEL = {"C32": "proof"}


def check(prop, tier):
    if prop in SEMANTIC:
        return semantics(prop, tier)
    if prop in PARSER:
        return parser(prop, tier)
    if prop == "C31":
        return lint.c31(tier)
    if prop == "C32":
        return cfgs.c32(tier)
    if prop == "C33":
        return cfgs.c33(tier, lambda b: b["code"][0] != "panic")
    raise SystemExit("unknown property " + prop)
