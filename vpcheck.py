#!/usr/bin/env python3
"""Runs the check of one property: build, run the monitored workloads, judge, write evidence.
   vpcheck.py <ID> [quick|thorough]        exit 0 held / 1 violated / 2 the check itself failed
   vpcheck.py --setup                      build everything once (fills the compiler cache)
   vpcheck.py --replay FILE                run the recorded case again"""
import json, os, re, shutil, subprocess, sys, tempfile, time, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vpbuild
from vpbuild import V, B
import importlib.util
spec = importlib.util.spec_from_file_location("vpchecks", os.path.join(V, "vpchecks.py")); C = importlib.util.module_from_spec(spec); spec.loader.exec_module(C)

# disk configurations, by index; %(d)s is the scratch directory of the process
DISKS = {
    0: ["disk=%(d)s/m0,64MiB,memory"],
    1: ["disk=%(d)s/a0,48MiB,syscall delete", "disk=%(d)s/a1,32MiB,syscall delete", "disk=%(d)s/a2,64MiB,syscall unlink"],
    2: ["disk=%(d)s/l0,48MiB,linuxaio unlink", "disk=%(d)s/l1,48MiB,linuxaio delete"],
    3: ["disk=%(d)s/x0,32MiB,mmap delete", "disk=%(d)s/x1,32MiB,memory"],
    4: ["disk=%(d)s/m0,16MiB,memory", "disk=%(d)s/m1,24MiB,memory", "disk=%(d)s/m2,16MiB,memory", "disk=%(d)s/m3,8MiB,memory"],
    5: ["disk=%(d)s/s0,32MiB,syscall delete nodirect", "disk=%(d)s/s1,32MiB,syscall delete nodirect", "disk=%(d)s/s2,32MiB,syscall delete nodirect", "disk=%(d)s/s3,32MiB,syscall delete nodirect"],
    6: ["disk=%(d)s/f0,32MiB,fileperblock_syscall delete", "disk=%(d)s/f1,32MiB,syscall delete nodirect"],
    7: ["disk=%(d)s/n0,0,syscall nodirect unlink"],
    9: ["disk=%(d)s/m0,1MiB,memory noautogrow", "disk=%(d)s/m1,1MiB,memory noautogrow", "disk=%(d)s/m2,512KiB,memory autogrow=no"],
    10: ["disk=%%(d)s/m%d,%dMiB,memory" % (i, 8 + 3 * i) for i in range(7)],
    8: ["disk=%(d)s/m0,64MiB,memory", "flash=%(d)s/m1,64MiB,memory"],
}
JITTER = {1: 60, 2: 100, 5: 400}

def asan_env(cfg, extra):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("STXXL") or k.startswith("OMP_"): e.pop(k)
    e["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:abort_on_error=0:max_malloc_fill_size=268435456:malloc_fill_byte=190:free_fill_byte=219:max_free_fill_size=4096:quarantine_size_mb=64:detect_stack_use_after_return=1:handle_abort=1:allocator_may_return_null=1:detect_odr_violation=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4:suppressions=" + os.path.join(V, "harness", "tsan.supp")
    e["OMP_NUM_THREADS"] = "4"
    e["LANG"] = "C.UTF-8"
    e["STXXLERRLOGFILE"] = "/dev/null"; e["STXXLLOGFILE"] = "/dev/null"
    e.update(extra or {})
    return e

class Shard:
    def __init__(s, binp, cfgname, run, tier, seed, i, n, only=None, limit=None):
        s.binp, s.cfgname, s.run, s.tier, s.seed, s.i, s.n, s.only, s.limit = binp, cfgname, run, tier, seed, i, n, only, limit or run.get("limit", 40 if tier == "quick" else 120)
        s.disk = run["disks"][i % len(run["disks"])]
    def start(s, root):
        s.dir = tempfile.mkdtemp(prefix="s%d_" % s.i, dir=root)
        cfgf = os.path.join(s.dir, "stxxl.cfg")
        with open(cfgf, "w") as f: f.write("".join(l % {"d": s.dir} + "\n" for l in DISKS[s.disk]))
        s.out = os.path.join(s.dir, "out.json"); s.log = os.path.join(s.dir, "log.txt")
        env = asan_env(s.cfgname, s.run.get("env"))
        env["STXXLCFG"] = cfgf
        env["TMPDIR"] = s.dir
        j = s.run.get("jitter", JITTER.get(s.disk, 0))
        if j: env["VP_JITTER"] = str(j)
        if "omp" in s.run: env["OMP_NUM_THREADS"] = str(s.run["omp"][s.i % len(s.run["omp"])])
        s.cmd = [s.binp, "--seed", str(s.seed), "--tier", s.tier, "--cfg", str(s.disk), "--limit", str(s.limit), "--out", s.out, "--tmp", s.dir,
                 "--mult", str(s.run.get("mult", 1.0))]
        s.cmd += ["--only", s.only] if s.only else ["--shard", "%d/%d" % (s.i, s.n)]
        pre = s.run.get("prefix")
        s.t0 = time.time()
        s.logf = open(s.log, "wb")
        s.p = subprocess.Popen((pre or []) + s.cmd, env=env, cwd=s.dir, stdout=s.logf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        return s
    def kill(s):
        try: os.killpg(s.p.pid, signal.SIGKILL)
        except OSError: pass
        s.p.wait()
    def finish(s):
        s.logf.close()
        rc = s.p.returncode
        s.recs, s.last = [], None
        if os.path.exists(s.out):
            for l in open(s.out, errors="replace"):
                l = l.strip()
                if not l: continue
                try: s.recs.append(json.loads(l))
                except ValueError: pass
        for r in s.recs:
            if "begin" in r: s.last = (r["begin"], r["rep"])
        s.logtext = open(s.log, errors="replace").read() if os.path.getsize(s.log) < 50e6 else open(s.log, errors="replace").read(5000000)
        s.rc = rc
        shutil.rmtree(s.dir, ignore_errors=True)
        return s

def crash_key(rc, log):
    m = re.search(r"(\w+\.(?:h|cpp)):\d+:.*?Assertion .?(.*?).? failed", log)
    if m: return "assert:%s:%s" % (m.group(1), m.group(2)[:120])
    m = re.search(r"terminate called after throwing an instance of '([^']+)'", log)
    if m: return "terminate:" + m.group(1)
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w\-]+) ?(.*)", log)
    if m:
        fn = re.search(r" in (.+)$", m.group(3))
        where = fn.group(1) if fn else m.group(3)
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (/repo/[^\s:]+):(\d+)", log)
        if fr: where = os.path.basename(fr[0][1]) + ":" + re.sub(r"<.*", "", re.sub(r"\(.*", "", fr[0][0]))
        return "sanitizer:%s:%s:%s" % (m.group(1), m.group(2), where[:120])
    m = re.search(r"(\S+):(\d+): runtime error: (.*)", log)
    if m: return "ubsan:%s:%s" % (os.path.basename(m.group(1).split(":")[0]), re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(3))[:100])
    m = re.search(r"terminate called after throwing an instance of '([^']+)'", log)
    if m: return "terminate:" + m.group(1)
    m = re.search(r"(AddressSanitizer|ThreadSanitizer):\s*([^\n(]*)", log)
    if m: return "sanitizer:%s:%s" % (m.group(1), m.group(2).strip()[:100])
    return "crash:rc=%d" % rc

def tsan_reports(log):
    """-> list of (key, text) of deduplicated ThreadSanitizer reports"""
    res = {}
    for blk in re.findall(r"WARNING: ThreadSanitizer: .*?SUMMARY: ThreadSanitizer:[^\n]*", log, re.S):
        kind = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", blk).group(1).strip()
        fr = []
        for stack in re.split(r"\n\s*\n", blk):
            m = re.findall(r"#\d+ (.+?) (/repo/[^\s:]+):(\d+)", stack)
            if m: fr.append("%s:%s" % (os.path.basename(m[0][1]), re.sub(r"[<(].*", "", m[0][0])))
        key = "tsan:%s:%s" % (kind, "|".join(sorted(set(fr[:2]))))
        res.setdefault(key, blk)
    return list(res.items())

def load_known():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def main():
    if sys.argv[1] == "--setup":
        t = time.time()
        jobs = []
        for c in C.CHECKS.values():
            for j in c["build"]:
                if j not in jobs: jobs.append(j)
        vpbuild.build(jobs)
        shutil.rmtree(os.path.join(B, "bin"), ignore_errors=True)
        shutil.rmtree(os.path.join(B, "obj"), ignore_errors=True)
        print("setup done in %.0f s" % (time.time() - t)); return 0
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        pid, tier, seed = r["property"], r["tier"], r["seed"]
        c = C.CHECKS[pid]
        bins = vpbuild.build([j for j in c["build"] if j[0] == r["bin"] and j[1] == r["cfg"]])
        root = tempfile.mkdtemp(prefix="vp_replay_")
        try:
            run = c["runs"][r["run"]]
            sh = Shard(bins[(r["bin"], r["cfg"])], r["cfg"], run, tier, seed, r["shard"], r["nshards"], only=None if r.get("whole") else "%s:%d" % (r["scenario"], r["rep"])).start(root)
            sh.p.wait(); sh.finish(); print(sh.logtext[-int(os.environ.get("VP_MSG", "6000")):])
            for x in sh.recs: print(json.dumps(x)[:2000])
            print("rc", sh.rc)
        finally: shutil.rmtree(root, ignore_errors=True)
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = C.CHECKS[pid]
    t0 = time.time()
    evf = os.path.join(V, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evf), exist_ok=True)
    if os.path.exists(evf): os.remove(evf)
    try: bins = vpbuild.build([tuple(j) for j in c["build"]])
    except vpbuild.BuildError as e:
        print("BUILD-ERROR", e); return 2
    tb = time.time() - t0
    root = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    deadline = t0 + (3600 * 4 if tier == "thorough" else 780)
    shards = []
    for ri, run in enumerate(c["runs"]):
        if tier == "quick" and run.get("thorough_only"): continue
        n = run.get("shards", 8)
        for i in range(n):
            sh = Shard(bins[(run["bin"], run["cfg"])], run["cfg"], run, tier, seed, i, n); sh.ri = ri
            shards.append(sh)
    viol, notes, done = [], [], []
    err = None
    try:
        pend, running = list(shards), []
        width = 8
        while pend or running:
            while pend and len(running) < width: running.append(pend.pop(0).start(root))
            time.sleep(0.03)
            for sh in list(running):
                if sh.p.poll() is not None:
                    running.remove(sh); sh.finish(); done.append(sh)
            if time.time() > deadline:
                for sh in running: sh.kill(); sh.finish(); sh.rc = -9; done.append(sh)
                err = "time budget exhausted"; break
        def add(sh, key, scenario, rep, msg, whole=False):
            viol.append(dict(key=key, scenario=scenario, rep=rep, msg=msg, bin=sh.run["bin"], cfg=sh.run["cfg"], run=sh.ri, shard=sh.i, nshards=sh.n, disk=sh.disk, whole=whole, log=sh.logtext[-3000:]))
        for sh in done:
            for r in sh.recs:
                if "viol" in r: add(sh, r["viol"], r["scenario"], r["rep"], r["msg"], whole=bool(r.get("whole")))
            if sh.cfgname == "tsan":
                for key, blk in tsan_reports(sh.logtext):
                    add(sh, key, sh.last[0] if sh.last else "?", sh.last[1] if sh.last else 0, blk[:3000], whole=True)
            hang = [r for r in sh.recs if r.get("hang")]
            if hang:
                # run the case again, alone and with more time: only a repeated hang is a finding
                h = hang[0]
                again = 0
                for att in range(2):
                    if h["scenario"] == "(exit)":
                        r2 = Shard(sh.binp, sh.cfgname, sh.run, tier, seed, sh.i, sh.n, limit=sh.limit * 2)
                    else:
                        r2 = Shard(sh.binp, sh.cfgname, sh.run, tier, seed, sh.i, sh.n, only="%s:%d" % (h["scenario"], h["rep"]), limit=sh.limit * (1 + att))
                    r2.start(root); r2.p.wait(); r2.finish()
                    if any(r.get("hang") for r in r2.recs): again += 1; break
                if again: add(sh, "hang:" + h["scenario"], h["scenario"], h["rep"], "no progress within %d s, repeatedly" % sh.limit)
                else:
                    # the same shard as a whole: scheduling-dependent hangs
                    r2 = Shard(sh.binp, sh.cfgname, sh.run, tier, seed, sh.i, sh.n, limit=sh.limit * 2); r2.start(root); r2.p.wait(); r2.finish()
                    if any(r.get("hang") for r in r2.recs): add(sh, "hang:" + h["scenario"], h["scenario"], h["rep"], "no progress within %d s, repeatedly" % sh.limit, whole=True)
                    else: notes.append("inconclusive: %s:%d exceeded %d s once" % (h["scenario"], h["rep"], sh.limit))
            elif sh.rc in (0, 3): pass
            elif sh.rc == 66 and sh.cfgname == "tsan" and any("evals" in r for r in sh.recs): pass
            elif sh.rc == -9:
                if not err: err = "shard was killed (memory?)"
            elif sh.rc == 2: err = "driver usage error: " + sh.logtext[-500:]
            else:
                last = sh.last or ("(start)", 0)
                add(sh, crash_key(sh.rc, sh.logtext), last[0], last[1], "process ended with %d\n" % sh.rc + sh.logtext[-2500:])
    finally:
        for sh in shards:
            if hasattr(sh, "p") and sh.p.poll() is None: sh.kill()
        shutil.rmtree(root, ignore_errors=True)
    # aggregate observations
    ev, counters, cov, hashes, samples = 0, {}, {}, set(), []
    for sh in done:
        for r in sh.recs:
            if "evals" in r:
                ev += r["evals"]
                for k, v in r["counters"].items(): counters[k] = counters.get(k, 0) + v
                for k, v in r["cov"].items(): cov.setdefault(k, set()).update(v)
                hashes.update(r["hashes"]); samples += r["samples"][:2]
    # judge
    known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "known"]
    hit, new = {}, []
    for v in viol:
        for k in known:
            if re.search(k["match"]["scenario"], v["scenario"]) and re.search(k["match"]["key"], v["key"]):
                hit.setdefault(k["id"], v); break
        else: new.append(v)
    for k in known:
        if k["id"] in hit: print("KNOWN-FINDING: property=%s %s: %s" % (pid, k["id"], k["what"]))
        else: notes.append("known finding %s did not show in this run" % k["id"])
    need = c.get("need", [])
    missing = [n for n in need if counters.get(n, 0) == 0]
    coverage = {"evaluations": ev, "distinct_nontrivial": len(hashes), "rule": c["rule"],
                "samples": samples[:6] or ["(none)"], "monitored": counters,
                "dimensions": {k: (sorted(v)[:40] if len(v) <= 40 else {"distinct": len(v), "some": sorted(v)[:15]}) for k, v in sorted(cov.items())},
                "processes": len(done), "build_s": round(tb, 1)}
    if notes: coverage["notes"] = notes[:10]
    evd = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
           "assumptions": c.get("assumptions", []) + ["executions observed on this machine only; instrumentation: " + ", ".join(sorted({r["cfg"] for r in c["runs"]}))],
           "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(evf, "w") as f: json.dump(evd, f, indent=1)
    seen = set()
    rd = os.path.join(V, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
    for v in new:
        kk = (v["key"], v["scenario"])
        if kk in seen or len(seen) >= 5: continue
        seen.add(kk)
        rp = os.path.join("evidence", "replay", "%s-%d.json" % (pid, len(seen)))
        with open(os.path.join(V, rp), "w") as f: json.dump(dict(property=pid, tier=tier, seed=seed, **v), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  scenario=%s:%s disks=%s key=%s" % (v["scenario"], v["rep"], v["disk"], v["key"]))
        print("  " + v["msg"][:int(os.environ.get("VP_MSG", "600"))].replace("\n", "\n  "))
    if new: return 1
    if err: print("ERROR:", err); return 2
    if missing or not hashes: print("ERROR: nothing observed for", missing or "any non-trivial case"); return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs (build %.1fs)" % (pid, tier, seed, ev, len(hashes), time.time() - t0, tb))
    return 0

if __name__ == "__main__": sys.exit(main())
