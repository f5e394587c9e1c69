#!/usr/bin/env python3
"""Print a markdown table of what the last run of each check covered (from evidence/)."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("# Coverage of one run of each check\n\nTaken from evidence/ (tier as shown). `states` is the number of distinct states the search kept, `executions` the number of complete runs of the real code.\n")
for f in sorted(glob.glob(os.path.join(here, "evidence", "*.json"))):
    d = json.load(open(f)); c = d["coverage"]
    print("## %s (%s, %s s)\n\n| scenario | bound | executions | transitions | states | outcomes |\n|---|---|---:|---:|---:|---:|" % (d["property"], d["tier"], d["wall_s"]))
    for s in c["per_scenario"]:
        print("| %s | %s | %s | %s | %s | %s |" % (s["name"], s.get("bound", c["bounds"].get(s["name"], "")), s.get("execs", s.get("executions", "")), s.get("transitions", s.get("steps", "")), s.get("states", ""), s.get("outcomes", "")))
    print()
