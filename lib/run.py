#!/usr/bin/env python3
"""Build a check's harness from /repo's current tree, explore, replay, judge.

usage: run.py PROPERTY quick|thorough          run a check
       run.py --replay FILE                    replay a saved counterexample
"""
import json, os, shutil, subprocess, sys, tempfile, time, hashlib, concurrent.futures
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
from checks import CHECKS
REPO = os.environ.get("VERIF_REPO", "/repo")
GXX, CLANGXX = "/usr/bin/g++-13", "/usr/bin/clang++-18"
# the flags the project's own tests need at this commit (see /opt/vp/BUILD.json);
# -idirafter instead of -I keeps include/errno.h and include/typeinfo from
# shadowing the system headers of the reference models.
BASE = ["-w", "-fpermissive", "-DFASTFLOAT_FAST_FLOAT_H", "-DNANOSTL__NULLPTR", "-include", "stddef.h"]

def build_dir(prop):
    d = os.path.join(HERE, "build", prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d

def compile_cmd(spec, out):
    cc = CLANGXX if spec.get("clang") else GXX
    src = spec["src"].replace("{REPO}", REPO)
    if not src.startswith("/"): src = os.path.join(HERE, "harness", src)
    cmd = [cc, "-std=" + spec.get("std", "c++11"), spec.get("opt", "-O1"), "-g1"]
    if spec.get("asan", True): cmd += ["-fsanitize=address"]
    if spec.get("base", True): cmd += BASE
    cmd += [f.replace("{REPO}", REPO).replace("{HERE}", HERE) for f in spec.get("flags", [])]
    cmd += ["-I" + os.path.join(HERE, "harness"), "-idirafter", REPO + "/include"]
    cmd += [src] + [f.replace("{REPO}", REPO).replace("{HERE}", HERE) for f in spec.get("extra", [])]
    cmd += ["-o", out] + spec.get("link", ["-pthread"])
    return cmd

def run_build(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout

def known_findings(prop):
    """lines: known: property=ID scenario=S sig=G input=I :: text"""
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known:"):
                head, _, text = line[6:].strip().partition(" :: ")
                kv = dict(x.split("=", 1) for x in head.split())
                if kv.get("property") == prop:
                    kv["text"] = text
                    res.append(kv)
    return res

def is_known(known, f):
    for k in known:
        if k["scenario"] == f["scenario"] and k["sig"] == f["sig"] and ("input" not in k or k["input"] == f["choices"]):
            return k
    return None

def main():
    if sys.argv[1] == "--replay":
        return do_replay(sys.argv[2])
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    t0 = time.time()
    chk = CHECKS[prop]
    d = build_dir(prop)
    specs = [s for s in chk["bins"] if tier == "thorough" or not s.get("thorough_only")]
    # toolchain sanity: an environment problem must not look like a violation
    sane = os.path.join(d, "sane.cc")
    open(sane, "w").write("#include <vector>\nint main(){std::vector<int> v(1); return v[0];}\n")
    for cc in {CLANGXX if s.get("clang") else GXX for s in specs}:
        rc, o = run_build([cc, "-fsanitize=address", sane, "-o", os.path.join(d, "sane")])
        if rc != 0:
            print("toolchain does not work:\n" + o); return 2
    outs = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        jobs = []
        for i, s in enumerate(specs):
            out = os.path.join(d, "bin%d" % i)
            if s.get("prebuild"):
                cmd = [x.replace("{REPO}", REPO).replace("{HERE}", HERE).replace("{OUT}", out).replace("{DIR}", d) for x in s["prebuild"]]
            else:
                cmd = compile_cmd(s, out)
            jobs.append((s, out, cmd, ex.submit(run_build, cmd)))
        for s, out, cmd, j in jobs:
            rc, o = j.result()
            outs.append((s, out, cmd, rc, o))
    failures, scen, errors = [], [], []
    for i, (s, out, cmd, rc, o) in enumerate(outs):
        if rc != 0:
            if rc == 99:
                print("no answer: the code uses a platform function the controlled environment does not model:\n" + o[-2000:]); return 2
            if rc < 0 or "Killed signal" in o or "internal compiler error" in o:
                print("compiler was killed:\n" + o[-2000:]); return 2
            # The public interface the property speaks about can no longer be instantiated.
            failures.append({"bin": i, "scenario": "build", "sig": "build:" + s["src"], "choices": "",
                             "msg": "harness using only the public interface no longer compiles/links: " +
                                    " | ".join([l for l in o.splitlines() if "error" in l or "undefined" in l][:3])})
            print(o[-3000:])
            continue
        js = out + ".json"
        budget = s.get("budget", {}).get(tier, 200 if tier == "quick" else 780)
        cmd2 = [out, "--tier", tier, "--out", js, "--workers", str(s.get("workers", 8)), "--budget", str(budget)]
        r = None
        for attempt in range(2):
            if os.path.exists(js): os.unlink(js)
            p = subprocess.run(cmd2, text=True)
            try:
                r = json.load(open(js)); break
            except Exception as e: err = e
        if r is None:
            # both attempts died before exploring anything: a crash while loading or setting up is the code's doing
            if p.returncode in (-11, -8, -4, -7, -6, 77):
                failures.append({"bin": i, "scenario": "build", "sig": "start:" + s["src"], "choices": "",
                                 "msg": "harness dies (rc=%d) before the first execution" % p.returncode})
            else: errors.append("%s: no result (%s, rc=%d)" % (s["src"], err, p.returncode))
            continue
        for f in r["failures"]: f["bin"] = i; failures.append(f)
        for q in r["scenarios"]: q["bin"] = i; scen.append(q)
        if r.get("error"): errors.append("%s: internal error" % s["src"])
    # verdicts
    known = known_findings(prop)
    nviol, seen_known = 0, []
    for f in failures:
        k = is_known(known, f)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
            seen_known.append(k["text"])
            continue
        nviol += 1
        rp = os.path.join(d, "violation-%d.json" % nviol)
        json.dump({"property": prop, "tier": tier, "cmd": outs[f["bin"]][2], "bin": outs[f["bin"]][1], **f}, open(rp, "w"), indent=1)
        if nviol > 10: continue
        print("  failing: scenario=%s [%s] choices=%s :: %s" % (f["scenario"], f["sig"], f["choices"], f["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, HERE)))
        if nviol <= 2 and f["scenario"] != "build":
            try:
                subprocess.run([outs[f["bin"]][1], "--tier", tier, "--replay", f["scenario"], f["choices"]], timeout=60,
                               stderr=subprocess.DEVNULL)
            except subprocess.TimeoutExpired: pass
    # samples: the shortest story of real executions of this run
    samples = []
    for q in scen[:8]:
        if q.get("sample") or q["kind"] == 1:
            try:
                p = subprocess.run([outs[q["bin"]][1], "--tier", tier, "--replay", q["name"], q["sample"]], timeout=60,
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
                lines = [l.strip() for l in p.stdout.splitlines() if l.startswith("    ")]
                samples.append({"scenario": q["name"], "choices": q["sample"], "story": lines[:14]})
            except subprocess.TimeoutExpired: pass
    trees = [q for q in scen if q["kind"] == 1]
    ranges = [q for q in scen if q["kind"] == 2]
    execs = sum(q["execs"] for q in scen)
    lvl = chk["level"]
    cov = {"exhaustive": bool(scen) and all(q["exhausted"] for q in scen) and not errors,
           "bounds": {q["name"]: q["bound"] + ("" if q["exhausted"] else "  (CAPPED: not exhausted)") for q in scen},
           "per_scenario": [{k: q[k] for k in ("name", "execs", "steps", "states", "outcomes", "pruned", "exhausted", "wall_s")} for q in scen],
           "samples": samples}
    if lvl == "model_checking":
        cov["states"] = sum(q["states"] for q in trees) + sum(q["execs"] for q in ranges)
        cov["transitions"] = sum(q["steps"] for q in trees) + sum(q["execs"] for q in ranges)
        cov["traces_validated_against_impl"] = execs
        cov["distinct_outcomes"] = sum(q["outcomes"] for q in scen)
        cov["how_validated"] = "every explored execution runs the real code in lockstep with the reference model; no separate model exists that could drift"
    else:
        cov["evaluations"] = execs
        cov["distinct_nontrivial"] = sum(max(q["nontrivial"], q["outcomes"]) for q in scen)
        cov["rule"] = chk.get("rule", "cases are the enumerated inputs, all distinct by construction; non-trivial as counted by the harness")
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": lvl, "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    if seen_known: ev["coverage"]["known_findings_seen"] = seen_known
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if nviol: return 1
    if errors:
        print("\n".join(errors)); return 2
    for s, out, *_ in outs:
        if os.path.exists(out): os.unlink(out)
    print("OK property=%s tier=%s executions=%d wall=%.1fs" % (prop, tier, execs, time.time() - t0))
    return 0

def do_replay(path):
    v = json.load(open(path))
    os.makedirs(os.path.dirname(v["bin"]), exist_ok=True)
    rc, o = run_build(v["cmd"])
    if rc or v["scenario"] == "build":
        print(o); return 1 if rc else 0
    return subprocess.run([v["bin"], "--tier", v["tier"], "--replay", v["scenario"], v["choices"]]).returncode

if __name__ == "__main__":
    sys.exit(main())
