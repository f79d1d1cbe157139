#!/usr/bin/env python3
"""Runs one property's check: builds libcork from /repo's working tree together
with the property's harness, runs the generated cases on all cores, and writes
evidence/<ID>.json.   check.py ID [--tier quick|thorough] [--replay FILE] [--seed N]"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil
import signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CORK_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "lib"))
from checks import CHECKS  # noqa: E402

CLANG = shutil.which("clang-18") or shutil.which("clang") or "clang"
CLANGXX = CLANG
ASAN = ["-fsanitize=address,bounds,integer-divide-by-zero,null,return,unreachable,object-size",
        "-fno-sanitize-recover=all"]
COV = ["-fsanitize-coverage=inline-8bit-counters,trace-cmp"]
BASE = ["-std=gnu11", "-O1", "-g", "-fno-omit-frame-pointer", "-fwrapv", "-w", "-D_GNU_SOURCE", "-pthread"]
JOBS = os.cpu_count() or 8


class BuildError(Exception):
    pass


def cc(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])


def build(prop, spec, variant, bdir):
    """Builds one variant of the harness; returns the path of the program."""
    os.makedirs(bdir, exist_ok=True)
    gen = os.path.join(bdir, "gen", "libcork", "config")
    os.makedirs(gen, exist_ok=True)
    with open(os.path.join(gen, "version.h"), "w") as f:
        f.write('#ifndef V_H\n#define V_H\n#define CORK_CONFIG_VERSION_MAJOR 0\n#define CORK_CONFIG_VERSION_MINOR 0\n'
                '#define CORK_CONFIG_VERSION_PATCH 0\n#define CORK_CONFIG_VERSION_STRING "0.0.0-git"\n'
                '#define CORK_CONFIG_REVISION "unknown"\n#endif\n')
    inc = ["-I", os.path.join(bdir, "gen"), "-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "lib"),
           "-I", os.path.join(VERIF, "harness")]
    api = ["-DCORK_API=CORK_LOCAL"]
    flags = BASE + variant.get("cflags", [])
    san = variant.get("san", ASAN)
    cov = variant.get("cov", COV)
    lib_src = [s for s in sorted(glob.glob(os.path.join(REPO, "src/libcork/**/*.c"), recursive=True))]
    hsrc = [os.path.join(VERIF, "harness", s) for s in spec["src"] + variant.get("src", [])]
    esrc = [(os.path.join(VERIF, "lib", "pbt.c"), ["-O2"] + (san if "address" in " ".join(san) else []))]
    xsrc = [os.path.join(VERIF, "lib", s) for s in spec.get("lib", ["acct.c"]) + variant.get("lib", [])]
    objs, jobs = [], []

    def add(src, extra):
        o = os.path.join(bdir, hashlib.sha1(src.encode()).hexdigest()[:8] + "-" + os.path.basename(src) + ".o")
        objs.append(o)
        jobs.append([CLANG] + flags + extra + inc + ["-c", src, "-o", o])
    for s in lib_src:
        add(s, api + san + cov + variant.get("libflags", []))
    for s in hsrc:
        add(s, san + variant.get("hflags", []) + (cov if variant.get("hcov") else []))
    for s, fl in esrc:
        add(s, fl)
    for s in xsrc:
        add(s, ["-O2"] + (san if "address" in " ".join(san) else []))
    tools = []
    for t in spec.get("tools", []):
        tflags = flags + t.get("san", ["-fsanitize=address"]) + api + inc
        tobj = []
        for s in [os.path.join(REPO, x) for x in t.get("src", [])] + [os.path.join(VERIF, "harness", x) for x in t.get("hsrc", [])] + lib_src:
            o = os.path.join(bdir, "%s-%s-%s.o" % (t["name"], hashlib.sha1(s.encode()).hexdigest()[:8], os.path.basename(s)))
            tobj.append(o)
            jobs.append([CLANG] + tflags + ["-c", s, "-o", o])
        tools.append([CLANG] + tflags + tobj + ["-o", os.path.join(bdir, t["name"]), "-lpthread"])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda c: cc(c, bdir), jobs))
    exe = os.path.join(bdir, "harness-bin")
    cc([CLANG] + flags + (san if "thread" not in " ".join(san) else []) + objs + ["-o", exe] + spec.get("ldflags", []) + variant.get("ldflags", []) +
       ["-ldl", "-lm", "-lpthread"], bdir)
    for t in tools:
        cc(t, bdir)
    for d in spec.get("helpers", []):
        cc([CLANG, "-O1", "-w", os.path.join(VERIF, "harness", d + ".c"), "-o", os.path.join(bdir, d)], bdir)
    return exe


def run_env(prop, vname, bdir, tmp):
    env = dict(os.environ, PBT_PROPERTY=prop, PBT_VARIANT=vname, PBT_TMP=tmp, PBT_BUILD=bdir, PBT_REPO=REPO, LC_ALL="C", TZ="UTC")
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "LD_PRELOAD", "MALLOC_PERTURB_"):
        env.pop(k, None)
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--bdir")
    a = ap.parse_args()
    prop, spec = a.id, CHECKS[a.id]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.seed is not None:
        seed = a.seed
    else:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = int(hashlib.sha1(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    t0 = time.time()
    bdir = a.bdir or tempfile.mkdtemp(prefix="cork-%s-" % prop, dir="/tmp")
    os.chmod(bdir, 0o755)
    os.makedirs(bdir, exist_ok=True)
    try:
        tmp = tempfile.mkdtemp(prefix="cork-%s-" % prop, dir="/dev/shm")    # scratch trees: much faster there
    except OSError:
        tmp = tempfile.mkdtemp(prefix="t-", dir=bdir)
    os.chmod(tmp, 0o755)
    try:
        return go(a, prop, spec, tier, seed, t0, bdir, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        if not a.keep and not a.bdir:
            shutil.rmtree(bdir, ignore_errors=True)


def go(a, prop, spec, tier, seed, t0, bdir, tmp):
    variants = spec.get("variants", [{"name": "std"}])
    if a.replay:
        want = None
        for line in open(a.replay):
            m = re.match(r"variant (\S+)", line)
            if m:
                want = m.group(1)
        variants = [v for v in variants if v["name"] == want] or variants[:1]
    exes = []
    try:
        for v in variants:
            vb = os.path.join(bdir, v["name"])
            exes.append((v, build(prop, spec, v, vb), vb))
            os.chmod(vb, 0o755)
    except BuildError as e:
        print("check %s: build failed\n%s" % (prop, e))
        return 2
    t_build = time.time() - t0
    if a.replay:
        v, exe, vb = exes[0]
        p = subprocess.run([exe, "replay", os.path.abspath(a.replay)], env=run_env(prop, v["name"], vb, tmp), stdin=subprocess.DEVNULL)
        if p.returncode == 1:
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a.replay)))
        return p.returncode

    cfg = spec[tier]
    shards = spec.get("shards", 8)
    runs = []
    for v, exe, vb in exes:
        for s in range(shards):
            cases = a.cases or v.get(tier, cfg["cases"])
            secs = a.seconds or cfg["seconds"]
            runs.append((v, exe, vb, s, cases, secs / (1 if len(exes) == 1 else len(exes))))
    procs, results, stop = {}, [], False
    queue = list(runs)
    hard = time.time() + (600 if tier == "quick" else 5400)
    while queue or procs:
        while queue and len(procs) < spec.get("parallel", 8) and not stop:
            v, exe, vb, s, cases, secs = queue.pop(0)
            out = os.path.join(vb, "shard%d" % s)
            st = os.path.join(tmp, "%s-%d" % (v["name"], s))
            os.makedirs(st, exist_ok=True)
            os.chmod(st, 0o755)
            p = subprocess.Popen([exe, "run", "--seed", str(seed), "--shard", str(s), "--cases", str(cases), "--seconds", str(secs), "--out", out],
                                 env=run_env(prop, v["name"], vb, st), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                 start_new_session=True)
            procs[p] = (v, s, out, open(out + ".log", "wb"))
            os.set_blocking(p.stdout.fileno(), False)
        if stop:
            queue = []
        time.sleep(0.05)
        for p in list(procs):
            v, s, out, log = procs[p]
            try:
                d = p.stdout.read()
                if d:
                    log.write(d)
            except Exception:
                pass
            rc = p.poll()
            if rc is None:
                if time.time() > hard or (stop and time.time() > stop):
                    os.killpg(p.pid, signal.SIGKILL)
                    subprocess.run(["pkill", "-9", "-f", out + "$"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                continue
            log.close()
            del procs[p]
            r = {"variant": v["name"], "shard": s, "rc": rc, "out": out}
            if os.path.exists(out + ".json"):
                r["data"] = json.load(open(out + ".json"))
            results.append(r)
            if rc == 1 and "data" in r and not stop:
                stop = time.time() + 0.2
    # known findings
    known = []
    kf = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", line)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3).strip()))
    viol, bad = [], []
    for r in results:
        if r["rc"] == 1 and "data" in r:
            viol.append(r)
        elif "data" not in r and not (stop and r["rc"] < 0):
            bad.append(r)
    datas = [r["data"] for r in results if "data" in r]
    hashes = set()
    for r in results:
        try:
            b = open(r["out"] + ".hashes", "rb").read()
            for (h,) in struct.iter_unpack("<Q", b[:len(b) // 8 * 8]):
                hashes.add((r["variant"], h))
        except OSError:
            pass
    labels, counters, samples = {}, {}, []
    for d in datas:
        for k, n in d["labels"].items():
            labels[k] = labels.get(k, 0) + n
        for k, n in d["counters"].items():
            counters[k] = counters.get(k, 0) + n
        samples += d["samples"][:1]
    distinct = len(hashes)
    if not distinct and datas:
        distinct = max(d["nontrivial"] for d in datas)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in datas),
            "distinct_nontrivial": distinct,
            "rule": datas[0]["rule"] if datas else "",
            "samples": [s for s in samples if s][:5],
            "classes": labels, "counters": counters,
            "discarded": sum(d["discarded"] for d in datas),
            "mutants_of_new_coverage_cases": sum(d["mutated"] for d in datas),
            "new_coverage_cases_kept": sum(d["corpus"] for d in datas),
            "edges_reached_max_shard": max([d["edges"] for d in datas] or [0]),
            "unreproduced_failures": sum(d["unreproduced"] for d in datas),
            "variants": [v["name"] for v in variants], "shards_per_variant": shards,
            "build_s": round(t_build, 2), "longest_case_s": max([d["longest"] for d in datas] or [0]),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    def save():
        ev["wall_s"] = round(time.time() - t0, 2)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    save()
    real = []
    for r in viol:
        hit = [w for (rx, w) in known if re.search(rx, r["data"]["message"])]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]))
        else:
            real.append(r)
    if real:
        r = sorted(real, key=lambda x: os.path.getsize(x["data"]["replay"]))[0]
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        body = open(r["data"]["replay"]).read()
        dst = os.path.join(rd, "%s-%s.replay" % (prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
        with open(dst, "w") as f:
            f.write(body)
        print(r["data"]["message"][:3000])
        print("VIOLATION property=%s replay=%s" % (prop, dst))
        return 1
    if bad or not datas:
        for r in bad:
            print("check %s: shard %s/%d ended with %s and no result" % (prop, r["variant"], r["shard"], r["rc"]))
            try:
                print(open(r["out"] + ".log", errors="replace").read()[-2000:])
            except OSError:
                pass
        return 2
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d edges, %.1f s (build %.1f s)%s" % (
        prop, tier, seed, ev["coverage"]["evaluations"], distinct, ev["coverage"]["edges_reached_max_shard"], time.time() - t0, t_build,
        ", %d unreproduced" % ev["coverage"]["unreproduced_failures"] if ev["coverage"]["unreproduced_failures"] else ""))
    for r in results:
        try:
            for l in open(r["out"] + ".log", errors="replace"):
                if l.startswith("UNREPRODUCED"):
                    print("  not reproduced (shard %d): %s" % (r["shard"], l.strip()[:300]))
        except OSError:
            pass
    if os.environ.get("PBT_SHOW"):
        for k in sorted(labels, key=lambda k: -labels[k]):
            print("   %9d  %s" % (labels[k], k))
        for k in counters:
            print("   # %9d  %s" % (counters[k], k))
    return 0


if __name__ == "__main__":
    sys.exit(main())
