#!/usr/bin/env python3
"""Runs the runtime monitors of one property against /repo's working tree.

usage: run.py <property-id> [--tier quick|thorough] [--seed N] [--keep]
       run.py --build            (build every library variant and harness)

Exit 0: every monitor stayed quiet.  Exit 1: a monitor saw a violation, and a
line "VIOLATION property=<id> replay=<path>" was printed.  Exit 2: no answer
(the tree or a harness did not build, or the machine killed the run)."""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from specs import SPECS, VARIANTS  # noqa: E402

JOBS = max(2, os.cpu_count() or 2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def lib_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith(".cpp") or f.endswith("_test.cpp") or f == "empty.cpp":
                continue
            out.append(os.path.join(root, f))
    return out


def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        if os.path.isfile(base):
            h.update(base.encode()); h.update(open(base, "rb").read())
            continue
        for root, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".cpp", ".rb")) and not f.endswith("_test.cpp"):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, base).encode() + b"\0")
                    h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


INC = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "cfg"), "-I" + os.path.join(VERIF, "cfg/x/y"),
       "-I" + os.path.join(VERIF, "h"), "-idirafter", "/usr/include/mariadb", "-idirafter", "/usr/include/postgresql"]


class BuildError(Exception):
    pass


def compile_one(cmd, out):
    tmp = out + ".tmp%d" % os.getpid()
    r = sh(cmd + ["-o", tmp])
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    os.rename(tmp, out)


def build(jobs):
    """jobs: list of (harness, variant, extra_flags, link_flags). Returns {(harness,variant): exe}."""
    th = tree_hash([os.path.join(REPO, "src"), os.path.join(VERIF, "cfg")])
    tasks, exes, libs = [], {}, {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for variant in sorted({j[1] for j in jobs}):
            v = VARIANTS[variant]
            fh = hashlib.sha256(json.dumps(v).encode()).hexdigest()[:8]
            d = os.path.join(BUILD, "lib-%s-%s-%s" % (variant, th, fh))
            os.makedirs(d, exist_ok=True)
            objs = []
            for s in lib_sources():
                o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
                objs.append(o)
                if not os.path.exists(o):
                    tasks.append((ex.submit(compile_one, [v["cxx"], "-std=c++11"] + v["cflags"] + INC + ["-c", s], o), o))
            libs[variant] = (d, objs)
        hobjs = {}
        for (harness, variant, extra, link) in jobs:
            v = VARIANTS[variant]
            src = os.path.join(VERIF, "h", harness + ".cpp")
            key = hashlib.sha256((json.dumps(v) + json.dumps(extra) + th + tree_hash([src] + sorted(glob.glob(os.path.join(VERIF, "h", "*.h"))))).encode()).hexdigest()[:20]
            d = os.path.join(BUILD, "h-%s-%s-%s" % (harness, variant, key))
            os.makedirs(d, exist_ok=True)
            o = os.path.join(d, "h.o")
            hobjs[(harness, variant)] = (d, o, link)
            if not os.path.exists(o):
                tasks.insert(0, (ex.submit(compile_one, [v["cxx"], "-std=c++11"] + v["cflags"] + extra + INC + ["-c", src], o), o))
        failed = {}
        for (t, o) in tasks:
            try:
                t.result()
            except BuildError as e:
                failed[o] = e
    # a library source that does not compile only matters to harnesses that need it: they then fail to link
    for (d, o, link) in hobjs.values():
        if o in failed:
            raise failed[o]
    for (harness, variant), (d, o, link) in hobjs.items():
        exe = os.path.join(d, "run")
        if not os.path.exists(exe):
            v = VARIANTS[variant]
            ld, objs = libs[variant]
            lib = os.path.join(ld, "libpfi.a")
            if not os.path.exists(lib):
                tmp = lib + ".tmp%d" % os.getpid()
                r = sh(["ar", "rcs", tmp] + [x for x in objs if x not in failed])
                if r.returncode:
                    raise BuildError(r.stdout)
                os.rename(tmp, lib)
            compile_one([v["cxx"]] + v["cflags"] + [o, lib] + link + v.get("ldflags", []) + ["-lpthread", "-ldl"], exe)
        exes[(harness, variant)] = exe
    return exes


SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=66:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=0:strict_string_checks=0:max_allocation_size_mb=6000:handle_abort=1",
    "UBSAN_OPTIONS": "exitcode=66:print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0:detect_deadlocks=0",
}


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def execute(pid, run, exe, seed, tier, budget, timeout, scratch):
    out = os.path.join(scratch, "out.json")
    curf = os.path.join(scratch, "cur")
    for f in (out, curf):
        if os.path.exists(f):
            os.unlink(f)
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update({"VH_SEED": str(seed), "VH_TIER": tier, "VH_BUDGET": str(budget), "VH_OUT": out, "VH_CUR": curf,
                "VH_SCRATCH": scratch, "VH_PROP": pid, "VH_KNOWN": ",".join(f["id"] for f in known_findings()["findings"]),
                "LC_ALL": "C", "TZ": "UTC"})
    env.update(run.get("env", {}))
    cmd = [exe] + run.get("args", [])
    log = os.path.join(scratch, "log")
    t0 = time.time()
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=scratch, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    wall = time.time() - t0
    txt = open(log, "rb").read().decode("utf-8", "replace")
    data = None
    if os.path.exists(out):
        try:
            data = json.load(open(out))
        except ValueError:
            data = None
    cur = ""
    if os.path.exists(curf):
        cur = open(curf, "rb").read().split(b"\0")[0].decode("utf-8", "replace")
    return rc, wall, txt, data, cur, cmd


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--build", action="store_true")
    a = ap.parse_args()
    if a.build:
        jobs = {}
        for s in SPECS.values():
            for r in s["runs"]:
                jobs[(r["harness"], r["variant"])] = (r["harness"], r["variant"], r.get("cflags", []), r.get("link", []))
        try:
            build(list(jobs.values()))
        except BuildError as e:
            print(e)
            return 2
        return 0
    pid, tier = a.pid, a.tier
    spec = SPECS[pid]
    t0 = time.time()
    runs = [r for r in spec["runs"] if tier == "thorough" or not r.get("thorough_only")]
    jobs = {(r["harness"], r["variant"]): (r["harness"], r["variant"], r.get("cflags", []), r.get("link", [])) for r in runs}
    try:
        exes = build(list(jobs.values()))
    except BuildError as e:
        print("NO-ANSWER property=%s: build failed\n%s" % (pid, e))
        return 2
    bt = time.time() - t0
    findings = {f["id"]: f for f in known_findings()["findings"] if f["property"] == pid}
    tot = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "monitored": {}, "runs": []}
    violations, noanswer, seen_known = [], [], []
    for i, r in enumerate(runs):
        budget = r.get("budget", 10) if tier == "quick" else r.get("thorough_budget", max(120, 10 * r.get("budget", 10)))
        timeout = r.get("timeout", max(150, 6 * budget)) if tier == "quick" else budget * 3 + 600
        seed = a.seed * 64 + i
        name = "%s/%s%s" % (r["harness"], r["variant"], ("/" + "_".join(r["args"])) if r.get("args") else "")
        for attempt in range(2):
            scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
            try:
                rc, wall, txt, data, cur, cmd = execute(pid, r, exes[(r["harness"], r["variant"])], seed, tier, budget, timeout, scratch)
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
            if rc == -9 and attempt == 0:
                continue  # killed by the machine (memory): once more
            if rc is None and attempt == 0:
                continue  # overall timeout: once more before believing it
            break
        if data:
            tot["evaluations"] += data["evaluations"]
            tot["distinct_nontrivial"] = max(tot["distinct_nontrivial"], data["distinct_nontrivial"])
            tot["rule"] = tot["rule"] or data["rule"]
            tot["samples"] += data["samples"][:4]
            for k, v in data["counts"].items():
                tot["monitored"]["%s: %s" % (name, k)] = v
            for k in data.get("known", []):
                seen_known.append(k)
        tot["runs"].append({"run": name, "seed": seed, "exit": rc, "wall_s": round(wall, 2), "evaluations": data["evaluations"] if data else 0,
                            "distinct_nontrivial": data["distinct_nontrivial"] if data else 0})
        if rc == 0 and data is not None:
            continue
        if rc == -9:
            noanswer.append(name + ": killed")
            continue
        if rc == 78:
            noanswer.append(name + ": environment: " + txt[-500:])
            continue
        what = "oracle" if rc == 77 else ("sanitizer or crash, exit %s" % rc if rc is not None else "did not finish in %d s" % timeout)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", "%s-%s.txt" % (pid, name.replace("/", "-")))
        with open(rp, "w") as f:
            f.write("property: %s\nmonitor: %s\nended by: %s\nreplay: VERIF_SEED=%d VERIF_TIER=%s python3 /verif/run.py %s   (run seed VH_SEED=%d)\n"
                    "case under execution:\n%s\n\noutput:\n%s\n" % (pid, name, what, a.seed, tier, pid, seed, cur, txt[-20000:]))
        violations.append((name, rp, what, (data or {}).get("violation") or txt[-1500:]))
    unlisted = [k for k in seen_known if k not in findings]
    for k in sorted(set(seen_known)):
        if k in findings:
            print("KNOWN-FINDING: property=%s %s" % (pid, findings[k]["what"]))
    for k in sorted(set(unlisted)):
        rp = os.path.join(VERIF, "replays", "%s-%s.txt" % (pid, re.sub(r"\W", "_", k)))
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        open(rp, "w").write("property %s: defect %s observed and not listed as a known finding\n" % (pid, k))
        violations.append((k, rp, "oracle", k))
    ev = {"property": pid, "tier": tier, "seed": a.seed, "level": spec.get("level", "exploration"), "coverage": tot,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    ev["coverage"]["build_s"] = round(bt, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for name, rp, what, msg in violations:
        print("%s: %s: %s" % (name, what, msg.strip()[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if violations:
        return 1
    if noanswer:
        print("NO-ANSWER property=%s: %s" % (pid, "; ".join(noanswer)))
        return 2
    print("OK property=%s evaluations=%d distinct=%d build=%.1fs total=%.1fs" % (pid, tot["evaluations"], tot["distinct_nontrivial"], bt, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
