#!/usr/bin/env python3
"""mutate.py FILE[:from-to] "CHECK ..." [--limit N] [--jobs K] [--out LOG] [--list]
Development aid: plants small mutations into FILE (relative to /repo) in private copies of /repo and
/verif (mount namespace), drops those that the build or the stable tests already reject, and shows which
of the others no listed check catches.  No check uses this."""
import argparse, json, os, random, re, shutil, subprocess, sys
ap = argparse.ArgumentParser()
ap.add_argument("file"); ap.add_argument("checks")
ap.add_argument("--limit", type=int, default=80); ap.add_argument("--jobs", type=int, default=4)
ap.add_argument("--out", default="/tmp/mutate.log"); ap.add_argument("--list", action="store_true")
ap.add_argument("--worker", type=int, default=-1); ap.add_argument("--dir", default="/tmp/mutate"); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--only", default="")
a = ap.parse_args(); a.out = os.path.abspath(a.out)
fn, _, rng = a.file.partition(":")
lo, hi = (int(x) for x in rng.split("-")) if rng else (1, 10**9)

def mutants(text):
    out, incomment = [], False
    for ln, line in enumerate(text.split("\n"), 1):
        code = line
        if incomment:
            e = code.find("*/")
            if e < 0: continue
            code = " " * (e + 2) + code[e + 2:]; incomment = False
        while True:
            s = code.find("/*")
            if s < 0: break
            e = code.find("*/", s + 2)
            if e < 0: code = code[:s]; incomment = True; break
            code = code[:s] + " " * (e + 2 - s) + code[e + 2:]
        c = code.find("//")
        if c >= 0: code = code[:c]
        if not (lo <= ln <= hi) or code.lstrip().startswith("#") or not code.strip(): continue
        def add(s, e, new, what): out.append((ln, s, e, new, what))
        for m in re.finditer(r"(?<![<>=!+\-*/&|^-])(<=|>=|==|!=|&&|\|\||\+\+|--|\+=|-=|\|=|&=|<<|>>)(?![<>=])", code):
            t = m.group(1)
            for n in {"<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "++": ["--"], "--": ["++"], "+=": ["-="], "-=": ["+="], "|=": ["="], "&=": ["="], "<<": [">>"], ">>": ["<<"]}[t]:
                add(m.start(), m.end(), n, t + "->" + n)
        for m in re.finditer(r" ([<>+\-*/&|^]) ", code):
            t = m.group(1)
            for n in {"<": ["<=", ">"], ">": [">=", "<"], "+": ["-"], "-": ["+"], "*": ["+"], "/": ["*"], "&": ["|"], "|": ["&", "^"], "^": ["|"]}[t]:
                add(m.start(1), m.end(1), n, t + "->" + n)
        for m in re.finditer(r"(?<![\w.])(\d+|0x[0-9a-fA-F]+)(u|U|l|L|ul|UL|ull|ULL|ll|LL)?(?![\w.])", code):
            v = int(m.group(1), 0)
            add(m.start(1), m.end(1), str(v + 1), "%s->%d" % (m.group(1), v + 1))
            if v > 0: add(m.start(1), m.end(1), str(v - 1), "%s->%d" % (m.group(1), v - 1))
        for m in re.finditer(r"(?<![\w.])(\d*\.\d+)(?![\w])", code):
            add(m.start(1), m.end(1), m.group(1)[:-1] + str((int(m.group(1)[-1]) + 3) % 10), "float digit")
        for m in re.finditer(r"\b(true|false)\b", code):
            n = "false" if m.group(1) == "true" else "true"
            add(m.start(), m.end(), n, m.group(1) + "->" + n)
        for m in re.finditer(r"\b(if|while) *\(", code):
            d, k = 0, m.end() - 1
            while k < len(code):
                if code[k] == "(": d += 1
                if code[k] == ")":
                    d -= 1
                    if d == 0: break
                k += 1
            if k < len(code):
                if m.group(1) == "if": add(m.end(), k, "true", "if(true)")
                add(m.end(), k, "false", m.group(1) + "(false)")
        for m in re.finditer(r"!(?=[\w(])", code): add(m.start(), m.end(), "", "drop !")
        for m in re.finditer(r"\bunsigned (long|int|char|short)\b", code): add(m.start(), m.end(), m.group(1), "signed")
        for m in re.finditer(r"\b(u?int)64_t\b", code): add(m.start(), m.end(), m.group(1) + "32_t", "64->32")
        for m in re.finditer(r"\b(long long|unsigned long)\b", code): add(m.start(), m.end(), "int", "long->int")
        for m in re.finditer(r"\bsize_type |\bsize_t ", code): add(m.start(), m.end(), "unsigned char ", "size->uchar"); add(m.start(), m.end(), "unsigned short ", "size->ushort")
        for m in re.finditer(r"\b(first|last|begin|end|front|back|left|right|lhs|rhs|x|y|a|b)\b", code):
            n = {"first": "last", "last": "first", "begin": "end", "end": "begin", "front": "back", "back": "front", "left": "right", "right": "left", "lhs": "rhs", "rhs": "lhs", "x": "y", "y": "x", "a": "b", "b": "a"}[m.group(1)]
            add(m.start(), m.end(), n, m.group(1) + "->" + n)
        s = code.strip()
        if s.endswith(";") and not re.match(r"(return|using|typedef|break|continue|template|namespace|class|struct|friend|static|const|enum|extern|virtual|inline)\b", s) and not re.match(r"[\w:<>, ]+[ *&]+\w+( *=.*)?;$", s) and s != "};" and "operator" not in s:
            b = len(code) - len(code.lstrip())
            add(b, len(code.rstrip()), ";", "delete statement")
        if re.match(r"return [^;]*;$", s) and not re.match(r"return (\*this|[\d.]+f?|true|false|NULL);", s):
            pass
    return out

base = open(os.path.join("/repo", fn)).read()
ms = mutants(base)
random.Random(a.seed).shuffle(ms)
ms = ms[:a.limit]
if a.only: ms = [ms[int(i)] for i in a.only.split(",")]
if a.list:
    for i, m in enumerate(ms): print(i, m)
    sys.exit()
lines = base.split("\n")
if a.worker < 0:
    open(a.out, "w").close(); ps = []
    for w in range(a.jobs):
        W = "%s.%d" % (a.dir, w)
        subprocess.run(["rm", "-rf", W]); os.makedirs(W + "/verif")
        subprocess.run(["cp", "-a", "/repo", W + "/repo"], check=True)
        subprocess.run("cd /verif; tar cf - --exclude=./build --exclude=./.git --exclude=./seeded . | tar xf - -C %s/verif" % W, shell=True, check=True)
        shutil.copy(__file__, W + "/mutate.py")
        cmd = "mount --bind %s/repo /repo; mount --bind %s/verif /verif; cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1; python3 %s/mutate.py '%s' '%s' --limit %d --jobs %d --out %s --seed %d --worker %d --dir %s %s" % (W, W, W, a.file, a.checks, a.limit, a.jobs, a.out, a.seed, w, a.dir, ("--only " + a.only) if a.only else "")
        ps.append(subprocess.Popen(["unshare", "-Urm", "bash", "-c", cmd]))
    for p in ps: p.wait()
    for w in range(a.jobs): subprocess.run(["rm", "-rf", "%s.%d" % (a.dir, w)])
    res = [l for l in open(a.out)]
    n = {k: sum(l.startswith(k) for l in res) for k in ("build", "tests", "caught", "SURVIVED")}
    open(a.out, "a").write("SUMMARY %s %s\n" % (a.file, n)); print(n)
    sys.exit()
W = "%s.%d" % (a.dir, a.worker)
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
for i, (ln, s, e, new, what) in enumerate(ms):
    if i % a.jobs != a.worker: continue
    l2 = lines[:]; l2[ln - 1] = lines[ln - 1][:s] + new + lines[ln - 1][e:]
    open("/repo/" + fn, "w").write("\n".join(l2))
    verdict = "SURVIVED"
    if subprocess.run(["timeout", "120", "bash", "/opt/vp/build.sh"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: verdict = "build"
    else:
        subprocess.run(["timeout", "60", "bash", "/opt/vp/test.sh", W + "/t.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try: p = json.load(open(W + "/t.json"))["passed"]
        except Exception: p = []
        if any(x not in p for x in stable): verdict = "tests"
        else:
            for c in a.checks.split():
                r = subprocess.run(["/verif/check.sh", c, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                f = [x for x in r.stdout.splitlines() if "failing:" in x]
                if r.returncode == 1: verdict = "caught by " + c + " " + (f[0].strip()[:110] if f else ""); break
                if r.returncode != 0: verdict = "caught? rc=%d by %s %s" % (r.returncode, c, r.stdout[-150:].replace("\n", " | "))
    open(a.out, "a").write("%s | %s:%d #%d %s | %s\n" % (verdict, fn, ln, i, what, l2[ln - 1].strip()[:140]))
