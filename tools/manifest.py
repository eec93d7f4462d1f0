#!/usr/bin/env python3
"""regenerate MANIFEST.json"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import registry      # noqa: E402

AI = registry.AI
NOTE = ("Static: no code of cddl-cat is executed. Decided for every value of the symbolic scalars, strings and opaque leaf types in each of the enumerated "
        "shapes (bounded depth and width, listed in DESIGN.md); assumes the abstract models of std and of the dependencies (absint/models.py, "
        "absint/ext.py) and the reference semantics in absint/ref.py. Traces that meet an unmodelled construct are counted as undecided, never as violations.")
TECH = dict(registry.TECH)
NA = dict(
    C35="running time and stack depth of a backtracking recursive-descent parser are quantities over unbounded inputs; no sound static bound in reach (the nested-bracket grammar is in fact exponential, see DESIGN.md)",
    C36="wording of messages: the content is built by format strings whose adequacy is a judgement about text, not a decidable relation between program points",
    C37="correct rounding of decimal-to-double conversion lives inside std/nom/serde_json; this crate only forwards the text and the resulting double (forwarding is claimed in C22, C23 and C28)",
    C38="a declared limitation of the library's greedy matching (no backtracking over map assignments); a counterexample exists by design, so there is nothing to establish",
)
checks = []
for p in registry.ALL:
    checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                       technique=TECH.get(p, AI), level=registry.LEVEL.get(p, "other"), level_note=registry.NOTES.get(p, NOTE)))
m = dict(version=1, setup_cmd="python3 -m absint.dump default none json cbor", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()] +
         [dict(property=q, reason="not built yet") for q in ["C%02d" % i for i in range(1, 35)] if q not in registry.ALL])
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
