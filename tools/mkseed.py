#!/usr/bin/env python3
"""Makes and judges planted bugs:  mkseed.py FILE.py [ID...]
FILE.py defines BUGS = [dict(id, prop, edits=[(file, old, new)...], needs, breaks, demo=C source, sh=optional script)].
For each bug, in a scratch copy of /repo: apply, build, run the tests, run the demo with and without, run the check."""
import json, os, re, shutil, subprocess, sys, runpy, tempfile
REPO = "/repo"; SEED = "/verif/seeded"
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
SH = '''#!/bin/bash
# Exit 0: behaves as documented.  Run in the repository, after its build.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -std=gnu99 -g -O1 %s -w -D_GNU_SOURCE -DCORK_API=CORK_LOCAL -I include -I _build/include "$D/demo.c" $(find src/libcork -name '*.c') -o "$T/demo" -lpthread -lm || exit 9
cd "$T" && timeout 120 ./demo
'''
def sh(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def one(b, only_check=False):
    d = os.path.join(SEED, b["id"]); scratch = tempfile.mkdtemp(prefix="seed-", dir="/tmp"); r = os.path.join(scratch, "repo")
    try:
        sh(["cp", "-a", REPO, r], "/")
        sh(["git", "checkout", "-q", "--", "."], r)
        for f, old, new in b["edits"]:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(old) != 1: return "edit matches %d times in %s: %r" % (s.count(old), f, old[:60])
            open(p, "w").write(s.replace(old, new))
        patch = sh(["git", "diff"], r).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(patch)
        if "demo" in b: open(d + "/demo.c", "w").write(b["demo"].lstrip())
        open(d + "/demo.sh", "w").write(b.get("sh") or SH % b.get("cflags", "-fsanitize=address" if b.get("asan") else "")); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        # build and test in the copy: the scripts name /repo, so use copies of them that name the scratch tree
        out = scratch + "/out.json"
        for n in ("build.sh", "test.sh"):
            s = open("/opt/vp/" + n).read().replace("/repo", r).replace("/opt/vp/build.sh", scratch + "/build.sh"); open(scratch + "/" + n, "w").write(s)
        shutil.rmtree(r + "/_build"); shutil.rmtree(r + "/_build-fallback-u128")
        p = sh(["bash", scratch + "/build.sh"], r)
        if p.returncode: return "does not build\n" + p.stdout[-1500:]
        p = sh(["bash", scratch + "/test.sh", out], r)
        miss = sorted(set(BASE) - set(json.load(open(out))["passed"])) if os.path.exists(out) else ["?"]
        def base(f): return sh(["git", "show", "ca76f1e:" + f], REPO).stdout.splitlines()
        cur = None; orig = 0; mine = []
        for l in patch.splitlines():
            if l.startswith("--- a/"): cur = base(l[6:])
            elif l.startswith("-") and not l.startswith("---"):
                if l[1:] in cur: orig += 1
                else: mine.append(l[1:].strip())
        warn = "" if orig and not mine else ("[changes only: %s] " % mine if mine else "[pure addition] ")
        if miss: return "the tests notice: %s" % miss[:4]
        p = sh(["bash", d + "/demo.sh"], r, timeout=300)
        with_rc = p.returncode; wout = p.stdout[-200:]
        p0 = sh(["bash", d + "/demo.sh"], REPO, timeout=300)
        if p0.returncode != 0: return "demo fails on the unchanged tree: %d %s" % (p0.returncode, p0.stdout[-400:])
        if with_rc == 0 or with_rc == 9: return "demo does not fail with the change (%d) %s" % (with_rc, wout)
        res = "demo %d; %s" % (with_rc, warn)
        for c in [b["prop"]] + b.get("also", []):
            ev = "/verif/evidence/%s.json" % c; keep = open(ev).read() if os.path.exists(ev) else None
            p = sh(["python3", "/verif/check.py", c], "/verif", env=dict(os.environ, CORK_REPO=r))
            if keep: open(ev, "w").write(keep)
            m = re.findall(r"VIOLATION.*replay=(\S+)", p.stdout)
            for f in m:
                if os.path.exists(f): os.remove(f)
            lines = [l for l in p.stdout.splitlines() if l.strip()]
            res += "%s: %s " % (c, ("CAUGHT (" + (lines[0] if lines else "")[:150] + ")") if p.returncode == 1 and m else "*** MISSED *** rc=%d %s" % (p.returncode, (lines or [""])[-1][:150]))
        return res
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]; want = sys.argv[2:]
    for b in bugs:
        if want and b["id"] not in want: continue
        r = one(b)
        if not r.startswith("demo ") or "; " not in r: shutil.rmtree(os.path.join(SEED, b["id"]), ignore_errors=True)
        else:
            f = "/verif/tools/seeds/results.tsv"; old = [l for l in open(f).read().splitlines() if l.split("\t")[0] != b["id"]] if os.path.exists(f) else []
            open(f, "w").write("\n".join(sorted(old + ["%s\t%s\t%s" % (b["id"], b["prop"], r)])) + "\n")
        print("%-28s %s" % (b["id"], r), flush=True)
