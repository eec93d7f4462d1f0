"""Type-level witnesses and feature configurations (C32, C33)."""
import json
import os
import random
import shutil

from absint import dump, run
from . import vsem, flat, parse

FEATURES = {"default": ["json", "cbor"], "none": [], "json": ["json"], "cbor": ["cbor"]}
C32 = ("type-level encoding: /verif/witness/src/lib.rs demands Send + Sync + 'static of every public schema, tree, value, context and error type; rustc's trait solver "
       "decides each demand against the current source, and a failing demand is reported with the type it fails for and the field it comes from")
C33 = ("the type checker builds the library and a witness crate naming every entry point in each of the four feature configurations; then abstract interpretation of each "
       "configuration's MIR compares verdicts, parse trees and flattened trees with the same reference semantics (`.cbor` without ciborium: Unsupported)")


def witness(config):
    """(status, diagnostics) of checking the witness crate in a configuration: ok | library | witness"""
    dump.lock_file()
    d = os.path.join(dump.OUT, "witness-" + config)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    src = os.path.join(dump.VERIF, "witness")
    shutil.copy(os.path.join(src, "src", "lib.rs"), os.path.join(d, "src", "lib.rs"))
    open(os.path.join(d, "Cargo.toml"), "w").write(open(os.path.join(src, "Cargo.toml.in")).read().replace("@REPO@", dump.REPO))
    if os.path.exists(dump.REPO + "/Cargo.lock"):
        shutil.copy(dump.REPO + "/Cargo.lock", os.path.join(d, "Cargo.lock"))
    e = dump.env()
    e.update(CARGO_TARGET_DIR=os.path.join(dump.OUT, "target-witness"))
    r = dump.subprocess.run(["cargo", "+nightly", "check", "--offline", "--message-format=json", "--features", ",".join(FEATURES[config])], cwd=d, env=e,
                            stdout=dump.subprocess.PIPE, stderr=dump.subprocess.PIPE, text=True)
    ds = []
    for l in r.stdout.split("\n"):
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            ds.append((m["target"]["name"], m["message"]))
    if r.returncode == 0:
        return "ok", []
    if not ds:
        raise dump.NoAnswer("witness crate cannot be checked (%s): %s" % (config, r.stderr[-2000:]))
    lib = [x for n, x in ds if n != "witness"]
    return ("library", lib) if lib else ("witness", [x for n, x in ds])


def place(m):
    for s in m["spans"]:
        if s["is_primary"]:
            return "%s:%s" % (s["file_name"], s["line_start"]), (s["text"][0]["text"].strip() if s["text"] else "")
    return "?", ""


def chain(m):
    out = []
    for c in m["children"]:
        if "required because" in c["message"] or "within" in c["message"]:
            out.append(c["message"])
    return out


def c32(tier):
    dump.dump("default")                    # the tree must build at all
    R = run.Result("C32", tier)
    src = open(os.path.join(dump.VERIF, "witness", "src", "lib.rs")).read()
    n = src.count("= shared::<")
    R.obl = R.decided = n
    st, ds = witness("default")
    if st == "library":
        raise dump.NoAnswer("library does not build: " + ds[0]["message"])
    other = []
    for m in ds:
        at, text = place(m)
        if (m.get("code") or {}).get("code") == "E0277" and "shared::<" in text or "threads" in m["message"]:
            R.violation("%s: %s" % (text, m["message"]), "%s; %s" % (at, " <- ".join(chain(m)[:6])))
        elif (m.get("code") or {}).get("code") in ("E0310", "E0597", "E0477", "E0491") and "shared::<" in text:
            R.violation("%s: %s" % (text, m["message"]), at)
        else:
            other.append("%s at %s" % (m["message"], at))
    if other and not R.bad and any("shared" in x or "aborting" not in x for x in other):
        keep = [x for x in other if "lib.rs" in x]
        if keep:
            R.noanswer.append("witness does not apply: " + keep[0])
    R.add("types", n)
    R.samples = [l.strip() for l in src.split("\n") if "= shared::<" in l][:8]
    return R.finish("proof", C32, floor=20)


def sub(l, n):
    return l if len(l) <= n else random.Random(9).sample(l, n)


def nocbor(o):
    if callable(o):
        return lambda E: dict(o(E), cbor_feature=False)
    return dict(o, cbor_feature=False)


def bodies(P):
    """name -> shape of the body (statement counts, terminators, callees), to report what the configurations differ in"""
    return {f.name: [(len(b["s"]), b["t"][0], b["t"][1]["name"] if b["t"][0] == "call" else "") for b in f.d["blocks"]] for f in P.fns if f.local and f.has}


def c33(tier, keepv):
    dump.dump("default")
    R = run.Result("C33", tier)
    progs = {}
    for c in ("none", "json", "cbor", "default"):
        R.obl += 1
        R.decided += 1
        try:
            progs[c] = dump.dump(c)
        except dump.NoAnswer as e:
            log = [l for l in getattr(e, "build_log", "").split("\n") if l.startswith("error") or l.strip().startswith("-->")]
            R.violation("configuration %s does not build: %s" % (c, " ".join(log[:2])), (log[1:2] or ["?"])[0].strip())
            continue
        R.obl += 1
        R.decided += 1
        st, ds = witness(c)
        for m in ds:
            at, text = place(m)
            if "shared::<" in text:
                continue
            if st == "library":
                R.violation("configuration %s does not build: %s" % (c, m["message"]), at)
            elif "lib.rs" in at:
                R.violation("configuration %s lacks an entry point: %s (%s)" % (c, m["message"], text), "witness %s" % at)
    big = tier != "quick"
    base = None
    for c in ("default", "none", "json", "cbor"):
        if c not in progs:
            continue
        p = run.load(c)
        b = bodies(p)
        if c == "default":
            base = b
            continue
        diff = sorted(n for n in b if n in base and base[n] != b[n])
        R.add("functions_%s" % c, len(b))
        R.cov["functions_differing_%s" % c] = diff
        obs = []
        if c != "none":
            for k in sorted(vsem.FAM):
                for n, o in sub(vsem.FAM[k]("quick"), 150 if k != "C14" else 400) if not big else sub(vsem.FAM[k]("quick"), 2500):
                    if c == "json":
                        obs.append(("[%s] " % c + n, "validate_json", nocbor(o)))
                    else:
                        obs.append(("[%s] " % c + n, "validate", o))
        for t, n, r in sub(flat.obligations("quick"), 400 if not big else 4000):
            obs.append(("[%s] " % c + n, "flatten", r))
        for n, o in sub(parse.obligations("C29", "quick"), 80 if not big else 1500):
            obs.append(("[%s] " % c + n, "parse", o))
        run.run_obligations(R, p, obs, budget=90 if not big else 250, keep=keepv)
    R.samples = ["configuration " + c for c in progs]
    return R.finish("other", C33, floor=1000)
