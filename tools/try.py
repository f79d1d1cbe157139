#!/usr/bin/env python3
"""Tries changes out:  try.py FILE.py [ID...]   FILE.py defines T = [(id, "C01 C02", [(file, old, new)...])...].
Each is applied in a scratch copy of /repo, the tests and then the checks run; prints which notices it.  No demonstration, nothing is kept."""
import json, os, re, shutil, subprocess, sys, runpy, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO = "/repo"; BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def one(t):
    i, props, edits = t; d = tempfile.mkdtemp(prefix="try-", dir="/tmp"); r = d + "/repo"
    try:
        subprocess.run(["cp", "-a", REPO, r]); subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r)
        for f, a, b in edits:
            f = f if f.startswith("include") else "src/libcork/" + f; p = r + "/" + f; s = open(p).read()
            if s.count(a) != 1: return "%s: edit matches %d times: %r" % (i, s.count(a), a[:70])
            open(p, "w").write(s.replace(a, b))
        for n in ("build.sh", "test.sh"): open(d + "/" + n, "w").write(open("/opt/vp/" + n).read().replace("/repo", r).replace("/opt/vp/build.sh", d + "/build.sh"))
        shutil.rmtree(r + "/_build"); shutil.rmtree(r + "/_build-fallback-u128")
        p = subprocess.run(["bash", d + "/build.sh"], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode: return i + ": does not build " + p.stdout[-800:]
        subprocess.run(["bash", d + "/test.sh", d + "/out.json"], cwd=r, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        bad = BASE - set(json.load(open(d + "/out.json"))["passed"]) if os.path.exists(d + "/out.json") else {"?"}
        res = i + (": [the tests notice %s]" % sorted(bad)[:3] if bad else ":")
        for c in props.split():
            p = subprocess.run(["python3", "/verif/check.py", c], cwd="/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(os.environ, CORK_REPO=r, PBT_NO_SHRINK="1"))
            for f in re.findall(r"replay=(\S+)", p.stdout):
                if os.path.exists(f): os.remove(f)
            L = p.stdout.strip().splitlines(); why = [l for l in L if not l.startswith("VIOLATION")][-1:] or [""]
            res += " %s %s" % (c, "caught (%s)" % why[0][:110] if p.returncode == 1 and "VIOLATION" in p.stdout else "*** MISSED *** rc=%d %s" % (p.returncode, why[0][:150]))
        return res
    finally: shutil.rmtree(d)
T = [t for t in runpy.run_path(sys.argv[1])["T"] if not sys.argv[2:] or t[0] in sys.argv[2:]]
with ThreadPoolExecutor(2) as ex:
    for l in ex.map(one, T): print(l, flush=True)
