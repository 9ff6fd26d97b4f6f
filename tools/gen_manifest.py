#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from vpchecks.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import vpchecks as C
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "--reverse"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if "observation points for runtime monitors" in l or l.split(" ", 1)[1].startswith(("hooks:", "monitor hooks:"))]
checks = []
for p in props:
    i = p["id"]
    if i not in C.CHECKS: continue
    c = C.CHECKS[i]
    checks.append({"property": i, "quick_cmd": "python3 vpcheck.py %s quick" % i, "thorough_cmd": "python3 vpcheck.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c.get("technique", "runtime monitoring: seeded workloads on the sanitizer-instrumented library, compared online with an executable model"),
        "level": "exploration",
        "level_note": c.get("level_note", "No violation was observed in the executions of this run (bounded by operation counts, seeds VERIF_SEED); trusts the model in drivers/, the sanitizers and the compiler.")})
na = [{"property": p["id"], "reason": C.NOT_APPLICABLE.get(p["id"], "check not built yet")} for p in props if p["id"] not in C.CHECKS]
m = {"version": 1, "setup_cmd": "python3 vpcheck.py --setup",
     "hooks": {"guard": "STXXL_MONITOR_HOOKS", "enable": "vpbuild.py compiles /repo/lib and the drivers with -DSTXXL_MONITOR_HOOKS=1 and links harness/vp_monitor.cpp", "source_commits": hooks},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Everything is rebuilt from /repo's working tree through a compiler cache in /verif/build (content-addressed, git-ignored)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
