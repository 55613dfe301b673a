#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and specs.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs import SPECS

P = []
TECH = {
 "C01": "runtime monitoring: occupancy/holder monitor inside the critical region, TSan, injected delays at wrapped pthread calls",
 "C02": "runtime monitoring: ownership probes and token accounting under an adversarial condition variable, TSan",
 "C03": "runtime monitoring: reader/writer occupancy monitor and lock-state matrix with probe threads, TSan",
 "C04": "runtime monitoring: offline linearizability checking of recorded histories against a bounded FIFO, TSan, adversarial wake-ups",
 "C05": "runtime monitoring: exactly-once and common-order checking of recorded histories, TSan",
 "C06": "runtime monitoring: offline linearizability checking of recorded histories against a one-place cell, TSan",
 "C07": "runtime monitoring: outstanding-units monitor and conservation probes, TSan, adversarial wake-ups",
 "C08": "runtime monitoring: thread life-cycle model, pthread handle ledger, injected failures, ASan and TSan",
 "C09": "race detection (TSan) over concurrent first and later uses of every part, results compared with the same work alone",
 "C11": "runtime monitoring under ASan+UBSan with an allocation-size monitor and progress watchdog over damaged archives",
 "C23": "runtime monitoring: instance registry and use-count model under ASan+UBSan with injected exceptions, TSan for owners in threads",
 "C34": "runtime monitoring under ASan+UBSan with wrapped open/fstat/mmap faults and /proc ledgers",
 "C36": "runtime monitoring under ASan+UBSan: bytes sent versus received through injected short, interrupted and broken transfers, descriptor ledger",
 "C37": "runtime monitoring under ASan+UBSan against a stringstream model through injected short and broken transfers",
 "C38": "runtime monitoring under ASan+UBSan: received messages compared with sent ones through injected transport faults, descriptor ledger",
 "C39": "runtime monitoring: every execution matched to its call (at-most-once checker) under injected faults, ASan+UBSan and TSan",
 "C40": "runtime monitoring against a model cache with a controlled clock and resolver, TSan when shared",
 "C42": "runtime monitoring: every handler run matched to its request and response under injected faults, ASan+UBSan and TSan",
 "C50": "runtime monitoring under ASan+UBSan against a stand-in database client library with a handle ledger",
 "C51": "runtime monitoring: every execution matched to its call (at-most-once checker) under injected faults, ASan+UBSan and TSan, on a stand-in for msgpack",
 "C52": "runtime monitoring under ASan+UBSan with a record-level FastCGI client as the oracle",
 "C53": "runtime monitoring under ASan+UBSan: all-or-nothing checker over a stand-in transactional server with a fault at every client call",
}
def p(id, title, statement, over, text, why, files, mech, observe=None, level_note=None, technique=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(), mech=mech,
                  observe=observe or [], level_note=level_note, technique=technique or TECH.get(id), na=na))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.py")).read())

def main():
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                "anchors": {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]],
                            "observe_at": q["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for q in P:
        if q["na"]:
            na.append({"property": q["id"], "reason": q["na"]})
        elif q["id"] in SPECS:
            s = SPECS[q["id"]]
            checks.append({"property": q["id"], "quick_cmd": "python3 run.py %s --tier quick" % q["id"],
                "thorough_cmd": "python3 run.py %s --tier thorough" % q["id"], "evidence_file": "evidence/%s.json" % q["id"],
                "technique": q["technique"] or s.get("technique", "runtime monitoring under ASan+UBSan with a reference-model oracle"),
                "level": s.get("level", "exploration"),
                "level_note": q["level_note"] or s.get("level_note", "Holds on every generated execution of this run; nothing is claimed about inputs or schedules that were not executed. Trusts the harness oracle, the sanitizers and the compiler.")})
        else:
            na.append({"property": q["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "python3 run.py --build", "hooks": {"guard": "none", "enable": "no hooks: the checks observe the real code from outside (linked harnesses, wrapped libc calls, sanitizers)", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "One runner (run.py) builds /repo's working tree with sanitizers, runs the property's harnesses from h/ and writes evidence."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()
