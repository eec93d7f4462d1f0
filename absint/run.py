"""Run a property's obligations over the current tree; write evidence."""
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import core, dump, ext, floats, models, prog, textm, vrun

ext.install_cutters()
VERIF = dump.VERIF
P = None


def load(config="default"):
    p = prog.Prog(dump.dump(config))
    p.models = models.M
    return p


JOBS = None


def _worker(i):
    fn, args = JOBS[i]
    try:
        return fn(P, *args)
    except KeyError as e:
        return dict(noanswer="anchor missing: %s" % (e,), tb=traceback.format_exc())
    except Exception:
        return dict(noanswer="analysis error", tb=traceback.format_exc())


def pmap(prog_, jobs, budget=None, procs=None, stop=None):
    """run jobs (fn, args) in forked workers, yielding results in order"""
    global P, JOBS
    P = prog_
    JOBS = jobs
    core.PROG = prog_
    procs = procs or min(8, os.cpu_count() or 1)
    t0 = time.time()
    out = []
    with multiprocessing.get_context("fork").Pool(procs) as pool:
        it = pool.imap(_worker, range(len(jobs)), chunksize=max(1, min(16, len(jobs) // (procs * 8) or 1)))
        for _ in range(len(jobs)):
            if budget and time.time() - t0 > budget:
                pool.terminate()
                break
            out.append(next(it))
            if stop and stop(out[-1]):
                pool.terminate()
                break
    return out


def known(prop):
    """keys of recorded, unrepaired findings"""
    f = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.rstrip("\n")
            if l.startswith("finding: property=%s " % prop):
                out.append(l[len("finding: property=%s " % prop):].split(" :: ")[0])
    return out


class Result:
    """accumulated outcome of one property check"""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.bad = []            # dict(key, construct, detail)
        self.cov = {}
        self.undecided = {}
        self.touched = set()
        self.noanswer = []
        self.samples = []
        self.obl = 0
        self.decided = 0
        self.paths = 0
        self.und_paths = 0

    def violation(self, key, construct, **detail):
        self.bad.append(dict(key=key, construct=construct, **detail))

    def add(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def finish(self, level, rule, floor=0):
        seed = int(os.environ.get("VERIF_SEED", "1"))
        ev = dict(property=self.prop, tier=self.tier, seed=seed, level=level, wall_s=round(time.time() - self.t0, 2))
        cov = dict(self.cov)
        cov.update(explanation=rule, obligations=self.obl, obligations_decided=self.decided, traces=self.paths,
                   undecided_traces=self.und_paths, undecided_reasons=self.undecided,
                   functions_analysed=sorted(self.touched), functions_analysed_count=len(self.touched),
                   violations=len(self.bad))
        if self.samples:
            cov["samples"] = self.samples[:8]
        ev["coverage"] = cov
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + ".json"), "w"), indent=1, default=str)
        kn = known(self.prop)
        new = [b for b in self.bad if b["key"] not in kn]
        seen = {b["key"] for b in self.bad}
        for k in kn:
            if k in seen:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        print("%s [%s] obligations=%d decided=%d traces=%d undecided-traces=%d functions=%d violations=%d  %.1fs" % (
            self.prop, self.tier, self.obl, self.decided, self.paths, self.und_paths, len(self.touched), len(new),
            time.time() - self.t0))
        for k, v in sorted(self.undecided.items(), key=lambda x: -x[1])[:6]:
            print("  undecided: %s x%d" % (k, v))
        if new:
            rp = os.path.join(d, self.prop + ".violations.json")
            json.dump(new[:50], open(rp, "w"), indent=1, default=str)
            for b in new[:5]:
                print("  at %s: %s" % (b["construct"], b["key"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if self.noanswer:
            print("NO-ANSWER %s: %s" % (self.prop, self.noanswer[0]))
            return 2
        if self.decided < floor:
            print("NO-ANSWER %s: only %d obligations decided (floor %d)" % (self.prop, self.decided, floor))
            return 2
        return 0


MAXBAD = 40          # enough failing obligations to report
KINDS = {}           # kind -> (check function, obligation renderer)


def vjob(P, name, kind, ob, opts):
    t = time.time()
    chk, shw = KINDS[kind]
    st, bad, und, touched = chk(P, ob, **opts)
    bad = [dict(b, ob=shw(b["ob"]), kind=kind, code=[str(x) for x in b["code"] if x is not None], spec=[str(x) for x in b["spec"] if x is not None])
           for b in bad[:3]]
    return dict(name=name, kind=kind, st=st, bad=bad, und=und, touched=touched, t=time.time() - t)


def run_obligations(R, p, obs, budget=None, keep=None, opts=None):
    """obs: list of (name, kind, obligation).  keep(bad) filters which
    disagreements are this property's."""
    opts = dict(dict(fuel=200000, max_paths=4000), **(opts or {}))
    found = [0]

    def stop(r):
        if any(keep is None or keep(b) for b in r.get("bad", ())):
            found[0] += 1
        return found[0] >= MAXBAD
    res = pmap(p, [(vjob, (n, k, o, opts)) for n, k, o in obs], budget, stop=stop)
    slow = []
    for r in res:
        if "noanswer" in r:
            R.noanswer.append(r["noanswer"] + "\n" + r["tb"])
            continue
        R.obl += 1
        R.add("obligations_" + r["kind"])
        st = r["st"]
        R.paths += st["paths"]
        R.und_paths += st["undecided"] + st["imprecise"]
        R.touched |= r["touched"]
        if st["decided"] and not st["undecided"] and not st["imprecise"] and not st["budget"]:
            R.decided += 1
        if st["budget"]:
            R.add("trace_budget_hits")
        for k, v in r["und"].items():
            R.undecided[k] = R.undecided.get(k, 0) + v
        for b in r["bad"]:
            if keep is None or keep(b):
                R.violation("%s: code says %s, semantics says %s" % (r["name"], fmt(b["code"]), fmt(b["spec"])),
                            b.get("where") or "?", facts=b["facts"], template=b["ob"], path=b["path"])
        slow.append((round(r["t"], 2), r["name"], st["paths"]))
    slow.sort(reverse=True)
    R.cov["slowest"] = [list(x) for x in slow[:3]]
    if len(res) < len(obs):
        R.cov["not_reached"] = len(obs) - len(res)
    return res


def fmt(v):
    return "/".join(str(x) for x in v if x is not None)


def show(t):
    """compact rendering of a template"""
    if isinstance(t, (tuple, list)):
        if not t:
            return "()"
        k = t[0]
        if k == "re":
            return "T%s" % t[1]
        if k == "t":
            return "t%s" % t[1]
        if k == "lit":
            return "'%s'" % (t[1],)
        if k in ("grp", "arr", "map", "choice", "cfyi"):
            b = {"grp": "()", "arr": "[]", "map": "{}", "choice": "<>", "cfyi": "&"}[k]
            sep = " / " if k == "choice" else ", "
            if k == "map" and t[1] and isinstance(t[1][0], tuple) and len(t[1][0]) == 2 and isinstance(t[1][0][0], tuple):
                return "{" + ", ".join("%s:%s" % (show(a), show(c)) for a, c in t[1]) + "}"
            if k == "cfyi":
                return "&(" + sep.join(show(x) for x in t[1]) + ")"
            return b[0] + sep.join(show(x) for x in t[1]) + b[1]
        if k == "occ":
            o = t[1]
            return (o[0] if o[0] != "n" else "%s*%s" % (o[1], o[2])) + show(t[2])
        if k == "kv":
            return "%s%s=>%s" % (show(t[1]), "^" if t[3] else "", show(t[2]))
        if k in ("rule", "unwrap", "cfy"):
            return {"rule": "", "unwrap": "~", "cfy": "&"}[k] + t[1] + (
                "<%s>" % ",".join(show(x) for x in t[2:]) if len(t) > 2 else "")
        if k == "prel":
            return t[1].lower()
        if k == "range":
            return "%s%s%s" % (show(t[1]), ".." if t[3] else "...", show(t[2]))
        if k == "ctl":
            return "%s .%s %s" % (show(t[2]), t[1], show(t[3]))
        return "%s(%s)" % (k, ",".join(show(x) for x in t[1:]))
    return str(t)


def name_of(o):
    s = "schema %s" % show(o["root"][1])
    if o["root"][0]:
        s += " <%s>" % ",".join(o["root"][0])
    for n, (ps, nd) in o["env"].items():
        s += "; %s%s = %s" % (n, "<%s>" % ",".join(ps) if ps else "", show(nd))
    return s + " on " + show(o["data"])


KINDS["validate"] = (vrun.check, name_of)
