#!/usr/bin/env python3
"""Systematic mutation:  mutate.py gen OUT.json [FILE...]   (mutants that build and pass the tests)
                         mutate.py run OUT.json RESULT.tsv [MAX PER FILE [WORKERS]]  (run the checks that concern the file on each of them)
Works on scratch copies under /tmp only; a tool for finding what the checks don't look at."""
import json, os, re, shutil, subprocess, sys, hashlib, tempfile
from concurrent.futures import ThreadPoolExecutor
import threading
REPO = "/repo"; BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
S = "src/libcork/"; I = "include/libcork/"
MAP = {S+"core/allocator.c": "C15", S+"core/error.c": "C16", S+"core/gc.c": "C14", S+"core/hash.c": "C21", S+"core/ip-address.c": "C17 C18", S+"core/mempool.c": "C13",
 S+"core/timestamp.c": "C23 C24", S+"core/u128.c": "C20 C19", S+"ds/array.c": "C04 C05", S+"ds/bitset.c": "C12", S+"ds/buffer.c": "C06 C07", S+"ds/dllist.c": "C10", S+"ds/file-stream.c": "C30 C31",
 S+"ds/hash-table.c": "C01 C02 C03", S+"ds/managed-buffer.c": "C09 C37", S+"ds/ring-buffer.c": "C11", S+"ds/slice.c": "C08 C09", S+"posix/env.c": "C32", S+"posix/directory-walker.c": "C29", S+"posix/exec.c": "C33",
 S+"posix/files.c": "C25 C26 C27 C28 C29", S+"posix/process.c": "C38", S+"posix/subprocess.c": "C34 C35", S+"pthreads/thread.c": "C36", S+"cli/commands.c": "C39",
 I+"core/allocator.h": "C15", I+"core/byte-order.h": "C22", I+"core/hash.h": "C21", I+"core/net-addresses.h": "C17 C18", I+"core/timestamp.h": "C23 C24", I+"core/u128.h": "C19 C20", I+"ds/array.h": "C04 C05", I+"ds/bitset.h": "C12",
 I+"ds/buffer.h": "C06 C07", I+"ds/dllist.h": "C10", I+"ds/ring-buffer.h": "C11", I+"ds/slice.h": "C08", I+"ds/stream.h": "C30", I+"helpers/errors.h": "C16", I+"helpers/posix.h": "C27 C31", I+"threads/basics.h": "C37 C36", I+"threads/atomics.h": "C37", I+"core/mempool.h":"C13", "src/cork-hash/cork-hash.c": "C21", I+"helpers/gc.h": "C14", I+"core/error.h": "C16"}
OPS = [(r"(?<![<\-=>])<(?![<=])", ["<="]), (r"<=(?!=)", ["<"]), (r"(?<![>\-])>(?![>=])", [">="]), (r"(?<!>)>=", [">"]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"(?<=[\w\)\]] )\+(?= )", ["-"]), (r"(?<=[\w\)\]] )-(?= )", ["+"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\+\+", ["--"]), (r"(?<!-)--(?!-)", ["++"]), (r"<<(?!=)", [">>"]), (r">>(?!=)", ["<<"]),
       (r"(?<= )&(?= )", ["|"]), (r"(?<= )\|(?= )", ["&"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.\"%])(?:0[xX][0-9a-fA-F]+|\d+)(?![\w.\"])", "num"), (r"\bif \((?!defined)", "neg"), (r"(?<= )\*(?= \w)", ["+"]), (r"(?<= )/(?= \w)", ["*"]), (r"(?<= )%(?= \w)", ["/"]),
       (r"\bmin\b", []), (r"!(?=[\w\(])", [""])]
def mutants(f):
    L = open(os.path.join(REPO, f)).read().split("\n"); out = []; com = False
    for n, l in enumerate(L):
        s = l.strip()
        if com:
            if "*/" in l: com = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: com = True
            continue
        if not s or s.startswith("//") or re.match(r"#\s*(include|if|ifdef|ifndef|else|endif|elif|error)", s) or "DEBUG" in s or "CORK_ATTR" in s: continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "\1" * (len(m.group()) - 2) + '"', l)
        code = re.sub(r"/\*.*?\*/", lambda m: "\1" * len(m.group()), code)
        def add(new, what):
            if new != l: out.append((n, new, what))
        for rx, rep in OPS:
            for m in re.finditer(rx, code):
                a, b = m.span(); t = m.group()
                if rep == "num":
                    v = int(t, 0) if not (len(t) > 1 and t[0] == "0" and t[1] not in "xX") else int(t, 8)
                    for w in {v + 1, v - 1}:
                        if w >= 0: add(l[:a] + (hex(w) if t[:2].lower() == "0x" else str(w)) + l[b:], "%s->%s" % (t, w))
                elif rep == "neg":
                    depth = 0
                    for k in range(b - 1, len(code)):
                        depth += (code[k] == "(") - (code[k] == ")")
                        if depth == 0: add(l[:b - 1] + "(!" + l[b - 1:k + 1] + ")" + l[k + 1:], "negated"); break
                else:
                    for r in rep: add(l[:a] + r + l[b:], "%s->%s" % (t, r))
        cont = "\\" if l.rstrip().endswith("\\") else ""; body = code.rstrip().rstrip("\\").rstrip()
        if body.endswith(";") and re.match(r"\s*(return\b|break;|continue;|[\w>\.\-\[\]\*\(\)]+\s*(=|\+=|-=|\+\+|--|\|=|&=)|[a-z_]\w*\s*\(|rii_|ei_|rip_)", body) and not re.match(r"\s*(static|const|struct|size_t|int|char|bool|return)\b", body) and body.count("(") == body.count(")"):
            add(re.match(r"\s*", l).group() + ";" + (" " + cont if cont else ""), "deleted")
    return [dict(file=f, line=n + 1, old=L[n].strip(), new=new, what=w) for n, new, w in out]
def setup(d):
    r = d + "/repo"; subprocess.run(["cp", "-a", REPO, r], check=True); subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r)
    for n in ("build.sh", "test.sh"):
        open(d + "/" + n, "w").write(open("/opt/vp/" + n).read().replace("/repo", r).replace("/opt/vp/build.sh", d + "/build.sh"))
    shutil.rmtree(r + "/_build"); shutil.rmtree(r + "/_build-fallback-u128"); subprocess.run(["bash", d + "/build.sh"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True); return r
def apply(r, m):
    p = os.path.join(r, m["file"]); s = open(os.path.join(REPO, m["file"])).read().split("\n"); s[m["line"] - 1] = m["new"]; open(p, "w").write("\n".join(s))
def revert(r, m): shutil.copy(os.path.join(REPO, m["file"]), os.path.join(r, m["file"]))
def sh(c, t, **k):
    p = subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, **k)
    try: o, _ = p.communicate(timeout=t); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 124, ""
def objs(r, f):
    fs = [f] if f.endswith(".c") else [x for x in MAP if x.endswith(".c")]; h = []
    for x in fs:
        for fl in ([], ["-DCORK_CONFIG_HAVE_GCC_INT128=0", "-DCORK_CONFIG_HAVE_GCC_MODE_ATTRIBUTE=0"]) if "128" in f else ([],):
            rc, o = sh(["gcc", "-std=gnu99", "-O2", "-w", "-D_GNU_SOURCE", "-DNDEBUG_LINE", "-DCORK_API=CORK_LOCAL", "-I", "include", "-I", "_build/include", "-S", "-o", "-", x] + fl, 60, cwd=r)
            if rc: return None
            h.append(hashlib.md5(o.encode()).hexdigest())
    return h
def gen(outf, files):
    ms = [m for f in (files or MAP) for m in mutants(f)]; print(len(ms), "mutants", flush=True)
    dirs = []; loc = threading.local(); lock = threading.Lock(); W = 7; base = {}
    top = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    os.chmod(top, 0o755); uids = iter(range(61001, 61100))
    def init():
        # the tests of a mutant run as a user of their own: what a mutant removes or kills is its own
        with lock: loc.uid = next(uids)
        d = tempfile.mkdtemp(dir=top); loc.d = d; loc.r = setup(d); subprocess.run(["chown", "-R", "%d:%d" % (loc.uid, loc.uid), d], check=True)
    def test(m):
        d, r = loc.d, loc.r; key = m["file"]
        if key not in base: base[key] = objs(r, key)
        try:
            apply(r, m); o = objs(r, key)
            if o is None: return "build"
            if o == base[key] and key.endswith(".c"): return "equivalent"
            
            rc, _ = sh(["setpriv", "--reuid", str(loc.uid), "--regid", str(loc.uid), "--clear-groups", "bash", "-c", "ulimit -v 8000000 -u 500 -f 2000000; exec bash %s/test.sh %s/out.json" % (d, d)], 60, cwd=r, env=dict(os.environ, HOME=d, TMPDIR=d))
            subprocess.run(["pkill", "-9", "-U", str(loc.uid)])
            if rc == 124 or not os.path.exists(d + "/out.json"): return "killed"
            p = json.load(open(d + "/out.json"))["passed"]; return "killed" if set(BASE) - set(p) else "survives"
        finally: revert(r, m)
    n = [0]
    def run(m):
        try: m["tests"] = test(m)
        except Exception as e: m["tests"] = "error %s" % e
        with lock:
            n[0] += 1
            if n[0] % 100 == 0: print(n[0], flush=True); json.dump(ms, open(outf, "w"))
    with ThreadPoolExecutor(W, initializer=init) as ex: list(ex.map(run, ms))
    json.dump(ms, open(outf, "w"), indent=0); shutil.rmtree(top)
    c = {}
    for m in ms: c[m["tests"]] = c.get(m["tests"], 0) + 1
    print(c)
def run(inf, outf, cap=10**9, workers=2):
    import random
    by = {}
    for m in json.load(open(inf)):
        if m.get("tests") == "survives": by.setdefault(m["file"], []).append(m)
    for f in by: random.Random(f).shuffle(by[f]); by[f] = by[f][:cap]
    todo = [m for k in range(max(map(len, by.values()))) for f in by for m in by[f][k:k + 1]]
    top = tempfile.mkdtemp(prefix="mutr-", dir="/tmp"); loc = threading.local(); lock = threading.Lock(); done = set()
    if os.path.exists(outf): done = {tuple(l.split("\t")[1:4]) for l in open(outf).read().splitlines()}
    def init(): loc.r = tempfile.mkdtemp(dir=top) + "/repo"; subprocess.run(["cp", "-a", REPO, loc.r], check=True)
    def one(m):
        k = ("%s:%d" % (m["file"], m["line"]), m["what"], m["new"].strip())
        if k in done: return
        r = loc.r; apply(r, m); res = "MISSED"
        for c in MAP[m["file"]].split():
            rc, o = sh(["python3", "/verif/check.py", c], 900, env=dict(os.environ, CORK_REPO=r, PBT_NO_SHRINK="1"), cwd="/verif")
            for f in re.findall(r"replay=(\S+)", o):
                if os.path.exists(f): os.remove(f)
            if rc == 1 and "VIOLATION" in o: res = c; break
            if rc != 0: res = "rc%d %s" % (rc, c); break
        revert(r, m)
        with lock: open(outf, "a").write("\t".join((res,) + k + (m["old"],)) + "\n")
    with ThreadPoolExecutor(workers, initializer=init) as ex: list(ex.map(one, todo))
    shutil.rmtree(top)
if __name__ == "__main__":
    if sys.argv[1] == "gen": gen(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == "count":
        for f in MAP: print(len(mutants(f)), f)
    else: run(sys.argv[2], sys.argv[3], *map(int, sys.argv[4:]))
