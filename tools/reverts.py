# For every "fix:" commit: revert it alone in a scratch clone and run the property's quick check there.
# usage: python3 tools/reverts.py [C50 C53 ...]; prints caught / MISSED per commit
import json, os, re, shutil, subprocess, sys
V = "/verif"
want = set(sys.argv[1:])
fixed = json.load(open(V + "/known_findings.json"))["fixed"]
by = {}
for l in fixed:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    by.setdefault((m.group(2), m.group(3)), []).append(m.group(1))
for (h, s), props in by.items():
    props = [p for p in props if not want or p in want]
    if not props:
        continue
    d = "/tmp/rv-" + h
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", d])
    r = subprocess.run(["git", "-C", d, "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-edit", h], capture_output=True, text=True)
    if r.returncode:
        print("%s CONFLICT %s (%s)" % (h, s, props), flush=True)
    else:
        for p in props:
            e = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick")
            q = subprocess.run(["python3", V + "/run.py", p], capture_output=True, text=True, env=e)
            viol = "VIOLATION property=" + p in q.stdout
            lines = [x for x in q.stdout.splitlines() if x.strip()]
            print("%s %s %s %s | %s" % (h, p, "caught" if viol and q.returncode == 1 else "MISSED rc=%d" % q.returncode, s, (lines[0] if lines else "")[:150]), flush=True)
    shutil.rmtree(d, ignore_errors=True)
