#!/usr/bin/env python3
"""mutate.py [-n N] [-j J] [-s SEED] PROP[:FILE] ...: development aid. Makes N one-line mutants of the files a property is anchored in,
in scratch copies of /repo/src, and runs the property's check on each. Prints the survivors. Nothing registered in MANIFEST.json uses it."""
import sys, re, os, json, random, subprocess, shutil, argparse, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument("-n", type=int, default=12); ap.add_argument("-j", type=int, default=3); ap.add_argument("-s", type=int, default=1); ap.add_argument("--resume", default=""); ap.add_argument("--lines", default=""); ap.add_argument("--out", default="/tmp/mut/log.txt"); ap.add_argument("props", nargs="+"); a = ap.parse_args()
sys.path.insert(0, os.path.join(V, "tools"))
import importlib.util
sp = importlib.util.spec_from_file_location("props", os.path.join(V, "tools", "props.py")); pm = importlib.util.module_from_spec(sp); sp.loader.exec_module(pm)
P = {p["id"]: p for p in pm.P}
OPS = [(r"(?<![<>=!+\-*/&|])==(?!=)", "!="), (r"!=", "=="), (r"(?<![<>])<=(?!=)", "<"), (r"(?<![<>\-])>=(?!=)", ">"), (r" < (?!<)", " <= "), (r"(?<=[a-z0-9\])])<(?=[a-z0-9_])", "<="), (r" > (?!>)", " >= "), (r"&&", "||"), (r"\|\|", "&&"), (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bnot ", ""), (r"!(?=[a-zA-Z_(])", ""),
       (r"(?<=[\w)\]]) ?\+ ?(?=[\w(])(?!\+)", "-"), (r"(?<=[\w)\]]) ?- ?(?=[\w(])(?!>)", "+"), (r"(?<=[\w)\]]) ?\* ?(?=[\w(])", "/"), (r"(?<=[\w)\]]) ?/ ?(?=[\w(])", "*"), (r"%", "/"), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "/="), (r"\+\+", "--"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "1"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\bauto&", "auto"), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\bk\b", "i")]
def cands(f):
    out = []; L = open(os.path.join("/repo", f)).read().split("\n"); blk = False
    for i, l in enumerate(L):
        t = l.strip()
        if blk:
            if "*/" in l: blk = False
            continue
        if t.startswith("/*"): blk = "*/" not in l; continue
        if not t or t.startswith(("//", "#", "template", "using", "typedef", "static_assert", "namespace", "class", "struct", "public", "private", "\"", "typename", "*")) or "operator" in t and t.endswith("{") is False and ";" not in t: continue
        code = l.split("//")[0]
        for r, s in OPS:
            for m in re.finditer(r, code):
                if code[:m.start()].count('"') % 2: continue
                out.append((i, code[:m.start()] + s + code[m.end():] + l[len(code):]))
        if re.match(r"^\s*[\w:.\->\[\]()*&, ]+( ?[+\-*/]?= ?|\().*;\s*\\?$", code) and not re.match(r"^\s*(const |auto |int |bool |return|static|constexpr|double|else|std::\w+ \w+|size_t |\w+ \w+ ?(=|;|\())", code): out.append((i, re.sub(r"\S.*;", ";", code)))
    return L, out
SKIP = set(); EXTRA = {}
def try1(q, d, f, i, nl, L, t):
    try: r = subprocess.run([V + "/bin/vx", "check", q], env=dict(os.environ, VX_REPO=d, VX_TOTAL="200", VX_JOBS="3"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400); rc, o = r.returncode, r.stdout
    except subprocess.TimeoutExpired: rc, o = 99, "timeout"
    return {0: "SURVIVED", 1: "killed"}.get(rc, "nobuild" if "error:" in o else "NOANSWER " + o.strip()[-200:].replace("\n", " | "))
def run(job):
    n, prop, f, L, i, nl = job; d = "/tmp/mut/w%d_%d" % (os.getpid(), n); os.makedirs(d)
    try:
        shutil.copytree("/repo/src", d + "/src", symlinks=True)
        for x in ("cmake", "CMakeLists.txt"):
            pass
        M = list(L); M[i] = nl; open(os.path.join(d, f), "w").write("\n".join(M))
        t = time.time(); k = "SURVIVED"; tried = []
        for q in [prop] + [x for x in P if x != prop and f in P[x]["files"] and x not in SKIP] + EXTRA.get(f, []):
            if k == "killed": break
            tried.append(q); prop = q
            r = try1(q, d, f, i, nl, L, t) if not (k == "nobuild") else k; k = k if k.startswith("NOANSWER") and r != "killed" else r
        with open(a.out, "a") as g: g.write("%s %s %s:%d (%.0fs)\n   - %s\n   + %s\n" % (k, "+".join(tried), f, i + 1, time.time() - t, L[i].strip(), nl.strip()))
        return k
    finally: shutil.rmtree(d, ignore_errors=True)
jobs = []; rng = random.Random(a.s)
want = {}
if a.props == ["all"]:
    fs = {}
    for p in P.values():
        for x in p["files"]: fs.setdefault(x, p["id"])
    a.props = ["%s:%s" % (p, x) for x, p in fs.items()]
    for x in fs: want[x] = max(3, min(30, sum(1 for _ in open("/repo/" + x)) // a.n))
for p in a.props:
    p, _, only = p.partition(":"); fs = [only] if only else P[p]["files"]; allc = []
    for f in fs:
        L, c = cands(f); allc += [(f, L, i, nl) for i, nl in c if not a.lines or int(a.lines.split("-")[0]) <= i + 1 <= int(a.lines.split("-")[1])]
    seen = set(); rng.shuffle(allc)
    allc = [x for x in allc if x[2:] not in seen and not seen.add(x[2:])]
    lines = {}
    pick = []
    for x in allc:   # at most two per line
        if lines.get((x[0], x[2]), 0) < 1: pick.append(x); lines[(x[0], x[2])] = 1
    for x in pick[:want.get(only, a.n)]: jobs.append((len(jobs), p) + x)
if a.resume:
    done = set(); E = open(a.resume).read().split("\n")
    for x, l in enumerate(E):
        m = re.match(r"(killed|nobuild) \S+ (\S+):(\d+) ", l)
        if m and x + 2 < len(E): done.add((m.group(2), int(m.group(3)), E[x + 2].strip()[2:]))
    jobs = [j for j in jobs if (j[2], j[4] + 1, j[5].strip()) not in done]
print(len(jobs), "mutants", flush=True)
with ThreadPoolExecutor(a.j) as ex: R = list(ex.map(run, jobs))
from collections import Counter; print(Counter(R))
