#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 lib/props.py rewrites both."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
from checks import CHECKS

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None, technique=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, hook=hook, technique=technique, note=note))

LOCK = "explicit-state model checking of the implementation: every operation sequence to a depth, in lockstep with a reference model, states de-duplicated"
SCHEDT = "stateless model checking of the implementation under a controlled scheduler: all interleavings (sleep-set reduced), timeouts, spurious wakeups and faults as choices"
EXH = "exhaustive enumeration of the stated input space on the implementation, each case decided by an independent reference"

exec(open(os.path.join(HERE, "lib", "props_data.py")).read())

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                             "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                             "observe_at": list(p["observe"]), "hook_needed": p["hook"]}}
            assert len(o["title"]) <= 80, o["title"]
            f.write(json.dumps(o) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in CHECKS:
            checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                           "technique": p["technique"], "level": CHECKS[p["id"]]["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": NA[p["id"]]})
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "hooks": {"guard": "NANOSTL_VERIF_HOOKS",
                   "enable": "-DNANOSTL_VERIF_HOOKS plus a definition of NANOSTL_VERIF_MAP_PRIORITY() (harness/h_map.cc, parts 1 and 2)",
                   "source_commits": ["f33177b"]},
         "checks": checks, "not_applicable": na,
         "notes": "Every check rebuilds its harness from /repo's working tree into /verif/build/<id> and explores it with the engine in harness/mc.hpp; see DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed,", len(na), "not applicable")
main()
